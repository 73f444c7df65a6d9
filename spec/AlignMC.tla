------------------------------- MODULE AlignMC -------------------------------
(* A reference burst goes through a channel that delays it sample by sample  *)
(* (or advances it), and is then aligned.  Exhaustive over burst shapes,     *)
(* positions and delays: the delay is found, and removing it restores the    *)
(* reference.                                                                *)
EXTENDS Align, Json
CONSTANTS N, W
VARIABLES ref, deg, delay, out
vars == <<ref, deg, delay, out>>
Levels == {-5, 0, 7}
Bursts == {b \in [1..W -> Levels] : b[1] # 0 /\ b[W] # 0}
Quiet(n) == [i \in 1..n |-> 0]
Init == /\ \E b \in Bursts : ref = Quiet((N - W) \div 2) \o b \o Quiet(N - W - (N - W) \div 2)
        /\ deg = ref /\ delay = 0 /\ out = <<>>
Later == /\ out = <<>> /\ delay >= 0 /\ delay < (N - W) \div 2 - 1
         /\ deg' = <<0>> \o SubSeq(deg, 1, N - 1) /\ delay' = delay + 1 /\ UNCHANGED <<ref, out>>
Earlier == /\ out = <<>> /\ delay <= 0 /\ -delay < (N - W) \div 2 - 1
           /\ deg' = SubSeq(deg, 2, N) \o <<0>> /\ delay' = delay - 1 /\ UNCHANGED <<ref, out>>
Aligned == /\ out = <<>>
           /\ \E L \in FoundLags(ref, deg) :
                out' = [lag |-> L, x |-> IF Usable(L, ref, deg) THEN Shifted(deg, L) ELSE deg]
           /\ UNCHANGED <<ref, deg, delay>>
Next == Later \/ Earlier \/ Aligned
Spec == Init /\ [][Next]_vars
Recovered == out # <<>> => out.lag = -delay
Restored == out # <<>> => LET k == Min(N, Len(out.x)) IN SameSeq(SubSeq(out.x, 1, k), SubSeq(ref, 1, k))
Case == out = <<>> => PrintT(ToJson([ref |-> ref, deg |-> deg, delay |-> delay]))
==============================================================================
