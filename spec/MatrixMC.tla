------------------------------- MODULE MatrixMC -------------------------------
(* Exhaustive over small shapes: the algebra of the operations, and every    *)
(* short history of shape-changing operations, printed for replay.           *)
EXTENDS Matrix, Json
CONSTANTS MaxDim, MaxOps
VARIABLES g, hist
vars == <<g, hist>>
Nth(k) == k * k + 1
Mk(r, c, s) == [r |-> r, c |-> c, e |-> [k \in 1..(r * c) |-> s * Nth(k)]]
Op(f, d, a, b, i, j, k) == [f |-> f, d |-> d, a |-> a, b |-> b, i |-> i, j |-> j, k |-> k]
MkOp(d, r, c, s) == [f |-> "make", how |-> "moved", d |-> d, a |-> 0, b |-> 0, r |-> r, c |-> c, e |-> Mk(r, c, s).e]
Init == \E r \in 1..MaxDim, c \in 1..MaxDim, r2 \in 1..MaxDim, c2 \in 1..MaxDim :
          /\ g = <<Mk(r, c, 1), Mk(r2, c2, -1), One>>
          /\ hist = <<MkOp(0, r, c, 1), MkOp(1, r2, c2, -1)>>
Ops == [f : {"transpose", "flip", "copy", "eq"}, d : {2}, a : {0}, b : {1}, i : {0}, j : {0}, k : {0}]
  \cup [f : {"transpose", "flip"}, d : {0}, a : {0}, b : {0}, i : {0}, j : {0}, k : {0}]
  \cup (IF g[1].c = g[2].c THEN [f : {"join"}, d : {0, 2}, a : {0}, b : {1}, i : {0}, j : {0}, k : {0}] ELSE {})
  \cup (IF g[1].c = g[2].c /\ g[1].r = g[2].r
        THEN [f : {"add", "sub", "mul"}, d : {0, 1, 2}, a : {0}, b : {1}, i : {0}, j : {0}, k : {0}] ELSE {})
  \cup [f : {"resize"}, d : {0}, a : {0}, b : {0}, i : 1..MaxDim, j : 1..MaxDim, k : {0}]
  \cup [f : {"mean", "stddev"}, d : {1}, a : {0}, b : {0}, i : {0, 1}, j : {0}, k : {0}]
  \cup [f : {"rows"}, d : {2}, a : {0}, b : {0}, i : {0}, j : {0}, k : {g[1].r - 1}]
  \cup [f : {"columns"}, d : {0}, a : {0}, b : {0}, i : {0}, j : {g[1].c - 1}, k : {g[1].c - 1}]
Next == Len(hist) < 2 + MaxOps /\ \E o \in Ops : g' = Apply(g, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
WellFormed == \A q \in 1..3 : Len(g[q].e) = g[q].r * g[q].c
Involutions == \A q \in 1..3 : LET m == g[q] IN Same(Transpose(Transpose(m)), m) /\ Same(Flip(Flip(m)), m)
JoinSplits == \A p, q \in 1..3 : LET a == g[p] b == g[q] IN
  a.c = b.c => LET m == Join(a, b) IN Same(Sub(m, 0, a.r - 1, 0, a.c - 1), a) /\ Same(Sub(m, a.r, m.r - 1, 0, a.c - 1), b)
EqualityIsStructural == \A p, q \in 1..3 : Equal(g[p], g[q]) => g[p].r = g[q].r /\ g[p].c = g[q].c
MeanOfTranspose == \A q \in 1..3 : LET m == g[q] IN
  Same(Transpose(PerDim(m, 0, FMean)), PerDim(Transpose(m), 1, FMean))
Case == Len(hist) = 2 + MaxOps => PrintT(ToJson([ops |-> hist]))
==============================================================================
