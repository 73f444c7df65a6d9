-------------------------------- MODULE Matrix --------------------------------
(***************************************************************************)
(* The matrix type as a state machine: three registers holding matrices     *)
(* (values, never aliases) and one action per operation.  A matrix is       *)
(* [r, c, e], e being its elements column by column.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

At(m, i, j) == m.e[j * m.r + i + 1]            \* 0-based
Build(r, c, El(_, _)) ==
  TLCEval([r |-> r, c |-> c,
           e |-> [k \in 1..(r * c) |-> El((k - 1) % r, (k - 1) \div r)]])
Col(m, j) == SubSeq(m.e, j * m.r + 1, (j + 1) * m.r)
Row(m, i) == [j \in 1..m.c |-> At(m, i, j - 1)]
Each(m, Op(_)) == Build(m.r, m.c, LAMBDA i, j : Op(At(m, i, j)))
Both(a, b, Op(_, _)) == Build(a.r, a.c, LAMBDA i, j : Op(At(a, i, j), At(b, i, j)))
Transpose(m) == Build(m.c, m.r, LAMBDA i, j : At(m, j, i))
Flip(m) == Build(m.r, m.c, LAMBDA i, j : At(m, m.r - 1 - i, j))
Join(a, b) == Build(a.r + b.r, a.c, LAMBDA i, j : IF i < a.r THEN At(a, i, j) ELSE At(b, i - a.r, j))
Sub(m, i1, i2, j1, j2) == Build(i2 - i1 + 1, j2 - j1 + 1, LAMBDA i, j : At(m, i + i1, j + j1))
Resize(m, r, c) == Build(r, c, LAMBDA i, j : IF i < m.r /\ j < m.c THEN At(m, i, j) ELSE F(0))
WithRow(m, q, x) == Build(m.r, m.c, LAMBDA i, j : IF i = q THEN x[j + 1] ELSE At(m, i, j))
WithCol(m, q, x) == Build(m.r, m.c, LAMBDA i, j : IF j = q THEN x[i + 1] ELSE At(m, i, j))
\* statistics of each column (0) or each row (1)
StdDev(s) == IF Len(s) = 1 THEN F(0)
             ELSE LET m == FMean(s) IN
                  FSqrt(FDiv(FSumSq([i \in 1..Len(s) |-> FSub(s[i], m)]), Len(s) - 1))
PerDim(m, d, Op(_)) == IF d = 0 THEN Build(1, m.c, LAMBDA i, j : Op(Col(m, j)))
                       ELSE Build(m.r, 1, LAMBDA i, j : Op(Row(m, i)))
SameEl(x, y) == FEq(x, y) \/ FNear(x, y, "1e-12")
SameSeq(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : SameEl(s[k], t[k])
Same(a, b) == a.r = b.r /\ a.c = b.c /\ SameSeq(a.e, b.e)
Equal(a, b) == a.r = b.r /\ a.c = b.c /\ \A k \in 1..Len(a.e) : FEq(a.e[k], b.e[k])
Num(t) == IF t THEN 1 ELSE 0

\* Writes(o): does the operation produce a matrix?
Observers == {"get", "row", "rowsubset", "eq", "shape", "tovec", "tova", "iter"}
Result(g, o) ==
  LET a == g[o.a + 1] b == g[o.b + 1] f == o.f IN
  CASE f = "make" -> (IF o.how = "filled" THEN Build(o.r, o.c, LAMBDA i, j : o.e[1])
                      ELSE [r |-> o.r, c |-> o.c, e |-> o.e])
    [] f \in {"copy", "copyctor"} -> a
    [] f = "set" -> Build(a.r, a.c, LAMBDA i, j : IF i = o.i /\ j = o.j THEN o.x ELSE At(a, i, j))
    [] f = "rows" -> Sub(a, o.i, o.k, 0, a.c - 1)
    [] f = "column" -> Sub(a, 0, a.r - 1, o.j, o.j)
    [] f = "columns" -> Sub(a, 0, a.r - 1, o.j, o.k)
    [] f = "span" -> Sub(a, o.i, o.i2, o.j, o.k)
    [] f \in {"setrow", "setrowva"} -> WithRow(a, o.i, o.e)
    [] f \in {"setcol", "setcolvec", "setcolva"} -> WithCol(a, o.j, o.e)
    [] f = "join" -> Join(a, b)
    [] f = "transpose" -> Transpose(a)
    [] f = "flip" -> Flip(a)
    [] f = "resize" -> Resize(a, o.i, o.j)
    [] f = "mean" -> PerDim(a, o.i, FMean)
    [] f = "stddev" -> PerDim(a, o.i, StdDev)
    [] f = "add" -> Both(a, b, FAdd)
    [] f = "sub" -> Both(a, b, FSub)
    [] f = "mul" -> Both(a, b, FMul)
    [] f = "div" -> Both(a, b, FDiv)
    [] f = "adds" -> Each(a, LAMBDA x : FAdd(x, o.x))
    [] f = "subs" -> Each(a, LAMBDA x : FSub(x, o.x))
    [] f = "muls" -> Each(a, LAMBDA x : FMul(x, o.x))
    [] f = "divs" -> Each(a, LAMBDA x : FDiv(x, o.x))
Observed(g, o) ==
  LET a == g[o.a + 1] b == g[o.b + 1] f == o.f IN
  CASE f = "get" -> <<At(a, o.i, o.j), At(a, o.i, o.j), At(a, o.i, o.j)>>
    [] f = "row" -> Row(a, o.i)
    [] f = "rowsubset" -> SubSeq(Row(a, o.i), o.j + 1, o.k + 1)
    [] f = "eq" -> <<Num(Equal(a, b)), Num(Equal(b, a)), 1>>
    [] f = "shape" -> <<a.r, a.c, a.r * a.c, IF a.r > a.c THEN a.r ELSE a.c>>
    [] f \in {"tovec", "tova"} -> Col(a, 0)
    [] f = "iter" -> a.e \o [k \in 1..(2 * Len(a.e)) |-> a.e[(k + 1) \div 2]]
    [] OTHER -> <<>>

Apply(g, o) == IF o.f \in Observers THEN g ELSE [g EXCEPT ![o.d + 1] = Result(g, o)]

\* A recorded history: after every operation the registers hold what the
\* specification says (so operands, too, are what they were).
One == [r |-> 1, c |-> 1, e |-> <<0>>]
RECURSIVE Walk(_, _, _)
Walk(r, k, g) ==
  IF k > Len(r.in.ops) THEN {}
  ELSE LET o == r.in.ops[k] g2 == TLCEval(Apply(g, o)) s == r.steps[k]
           bad == {t \in {"operation-" \o o.f} :
                     ~(\A q \in 1..3 : Same(s.g[q], g2[q])) \/ ~SameSeq(s.v, Observed(g, o))}
       IN IF bad # {} THEN bad ELSE Walk(r, k + 1, g2)
MatrixViolations(r) == Walk(r, 1, <<One, One, One>>)
==============================================================================
