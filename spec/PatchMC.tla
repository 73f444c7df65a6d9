-------------------------------- MODULE PatchMC --------------------------------
(* Exhaustive: the matching transition system reaches the best valid         *)
(* assignment, for every table of similarities, every window and every       *)
(* placement of the patches within the bounds.  Its configurations are also  *)
(* replayed into the real code.                                              *)
EXTENDS PatchMatch, Json
CONSTANTS P, N, K, W, MaxRad, Neg, Emit   \* patches, positions, similarity levels (some negative?), patch width
VARIABLES c, i, D
vars == <<c, i, D>>

Levels == IF Neg THEN {-1, K} ELSE 1..K
Starts == {s \in [1..P -> 0..(N + W)] : \A a, b \in 1..P : a < b => s[a] < s[b]}
Init == /\ c \in [n : {N}, w : {W}, r : Starts, rad : 0..MaxRad, sim : [1..P -> [1..N -> 1..K]]]
        /\ i = 0 /\ D = <<>>
MatchFirst == i = 0 /\ NumKept(c) > 0 /\ i' = 1 /\ D' = First(c)
MatchNext == i > 0 /\ i < NumKept(c) /\ i' = i + 1 /\ D' = Extend(c, i + 1, D)
Next == (MatchFirst \/ MatchNext) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Done == i = NumKept(c)
\* the search state always holds something to continue from
Reachable == i > 0 => DOMAIN D # {}
Optimal == (Done /\ i > 0) => /\ MaxOf({D[j] : j \in DOMAIN D}) = BruteForce(c)
                              /\ Optimum(c) = BruteForce(c)
\* every value kept is the total of some valid assignment of a prefix
Monotone == [][\A j \in DOMAIN D : \A q \in DOMAIN D' : q > j => D'[q] >= D[j] + c.sim[i'][q + 1]]_vars
\* dropping: a suffix, exactly those too far past the end
Suffix == LET k == NumKept(c) IN /\ \A q \in (k + 1)..P : c.r[q] - (W \div 2) > N \/ c.r[q] - Window(c) >= N
                                 /\ k > 0 => c.r[k] - (W \div 2) <= N
Case == (Emit /\ i = 0) => PrintT(ToJson([n |-> c.n, w |-> c.w, r |-> c.r, rad |-> c.rad, sim |-> c.sim]))
==============================================================================
