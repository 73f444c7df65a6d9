-------------------------------- MODULE NsimMC --------------------------------
(* Exhaustive over pairs of small patches: the algebra of the index.         *)
EXTENDS Similarity, Json
CONSTANTS Values
VARIABLES r, d, lo, hi, done
vars == <<r, d, lo, hi, done>>
P22 == [1..2 -> [1..2 -> Values]]
Sim(a, b, q) == LET m == SimMap(a, b) IN FMean(<<m[1][1][q], m[1][2][q], m[2][1][q], m[2][2][q]>>)
Init == r \in P22 /\ d \in P22 /\ lo = F(0) /\ hi = F(0) /\ done = FALSE
Measure == ~done /\ done' = TRUE /\ lo' = Sim(r, d, 1) /\ hi' = Sim(r, d, 2) /\ UNCHANGED <<r, d>>
Spec == Init /\ [][Measure]_vars
Done == done
Symmetric == Done => FLe(FAbs(FSub(lo, Sim(d, r, 1))), Slack) /\ FLe(FAbs(FSub(hi, Sim(d, r, 2))), Slack)
Identical == (Done /\ r = d) => FLe(FAbs(FSub(lo, 1)), "1e-6") /\ FLe(FAbs(FSub(hi, 1)), "1e-6")
Bounded == Done => FLe(lo, "1.00000001")
Case == ~Done => PrintT(ToJson([r |-> r, d |-> d]))
==============================================================================
