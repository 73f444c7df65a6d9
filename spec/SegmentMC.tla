------------------------------- MODULE SegmentMC -------------------------------
(* Exhaustive: the definition of a time segment is consistent (lengths add   *)
(* up, segments concatenate, samples stay in order and in range), and the    *)
(* cases replayed into the real code.                                        *)
EXTENDS PatchMatch, Json
CONSTANTS MaxN
VARIABLES n, q0, q1, k
vars == <<n, q0, q1, k>>
X(m) == [i \in 1..m |-> 3 * i + 1]
Init == /\ n \in 1..MaxN /\ q0 \in -9..(4 * MaxN) /\ q1 \in 1..(4 * MaxN + 10)
        /\ Trunc4(q0) < Trunc4(q1) /\ Trunc4(q0) < n
        /\ k = 0
Next == k < Trunc4(q1) - Trunc4(q0) /\ k' = k + 1 /\ UNCHANGED <<n, q0, q1>>
Spec == Init /\ [][Next]_vars
Y == Segment(X(n), q0, q1)
s == Trunc4(q0)
e == Trunc4(q1)
Duration == Len(Y) = e - s
\* k samples in, the rest is the segment starting k samples later
Concatenates == Y = Segment(X(n), 4 * s, 4 * (s + k)) \o Segment(X(n), 4 * (s + k), q1)
Silence == \A i \in 1..Len(Y) : (Y[i] = 0) = (s + i - 1 \notin 0..(n - 1))
InOrder == \A i, j \in 1..Len(Y) : (i < j /\ Y[i] # 0 /\ Y[j] # 0) => Y[j] - Y[i] = 3 * (j - i)
Case == k = 0 => PrintT(ToJson([n |-> n, q0 |-> q0, q1 |-> q1]))
==============================================================================
