------------------------------ MODULE PatchMatch ------------------------------
(***************************************************************************)
(* Matching reference patches to positions of the degraded spectrogram,     *)
(* dropping the patches past its end, fine realignment of each match, and   *)
(* the extraction of a time segment of a signal.                            *)
(*                                                                          *)
(* A configuration c:  n  columns of the degraded spectrogram (positions    *)
(* 0..n-1), w  columns per patch, r  the starts of the reference patches    *)
(* (strictly increasing), rad  the search radius in patches, and  sim[i][j] *)
(* the similarity (possibly negative) of reference patch i at position j-1.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

None == -1
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* Dropping (property C15). *)
Window(c) == c.rad * c.w
Droppable(c, i) == \/ c.r[i] - (c.w \div 2) > c.n
                   \/ c.r[i] - Window(c) >= c.n     \* nothing to compare it with
RECURSIVE Kept(_, _)
Kept(c, k) == IF k = 0 THEN 0 ELSE IF Droppable(c, k) THEN Kept(c, k - 1) ELSE k
NumKept(c) == Kept(c, Len(c.r))

-----------------------------------------------------------------------------
(* Matching, as a transition system: one step matches (or skips) one patch. *)
(* A state of the search is the last used position; the value kept for it   *)
(* is the best total similarity of any way to get there.                    *)
Pos(c, i) == {j \in 0..(c.n - 1) : j >= c.r[i] - Window(c) /\ j <= c.r[i] + Window(c)}

\* first patch: any position of its window
First(c) == [j \in Pos(c, 1) |-> c.sim[1][j + 1]]
\* patch i from the totals D of patch i-1: match it after the last used
\* position, or leave it unmatched, staying at the last used position.
Options(c, i, D, j) ==
  {D[b] + c.sim[i][j + 1] : b \in {b \in DOMAIN D : b < j}} \cup
  (IF j \in DOMAIN D THEN {D[j]} ELSE {})
Extend(c, i, D) ==
  LET reach == {j \in Pos(c, i) : Options(c, i, D, j) # {}}
  IN [j \in reach |-> MaxOf(Options(c, i, D, j))]
RECURSIVE Table(_, _)
Table(c, i) == IF i = 1 THEN First(c) ELSE Extend(c, i, Table(c, i - 1))
Optimum(c) == LET D == Table(c, NumKept(c)) IN MaxOf({D[j] : j \in DOMAIN D})

(* What the answer has to be, said without reference to any search:         *)
(* an assignment m gives each kept patch a position of its window, or None  *)
(* (not for the first), strictly increasing over the matched ones.          *)
Valid(c, m) ==
  /\ \A i \in DOMAIN m : m[i] # None => m[i] \in Pos(c, i)
  /\ DOMAIN m # {} => m[1] # None
  /\ \A i, k \in DOMAIN m : (i < k /\ m[i] # None /\ m[k] # None) => m[i] < m[k]
RECURSIVE Total(_, _, _)
Total(c, m, i) == IF i = 0 THEN 0
                  ELSE Total(c, m, i - 1) + (IF m[i] = None THEN 0 ELSE c.sim[i][m[i] + 1])
Assignments(c) == {m \in [1..NumKept(c) -> -1..(c.n - 1)] : Valid(c, m)}
BruteForce(c) == MaxOf({Total(c, m, NumKept(c)) : m \in Assignments(c)})

-----------------------------------------------------------------------------
(* Judging one recorded call of the real matcher.  Reference patch i        *)
(* carries its number, position j of the degraded spectrogram its number;   *)
(* the comparator returned c.sim[i][j], and as band means <<sim, i, j>>.    *)
Unmatched(x) == FEq(x.ds, 0) /\ FEq(x.de, 0)
Tol == "1e-9"
NearAbs(a, b) == FLe(FAbs(FSub(a, b)), Tol)
PatchDur(c) == FMul(c.fd, c.w)
PosOf(c, x) == LET cand == {j \in 0..(c.n - 1) : NearAbs(x.ds, FMul(j, c.fd))}
               IN IF Unmatched(x) \/ cand = {} THEN None ELSE CHOOSE j \in cand : TRUE
\* a recorded status must be an error of any kind
MatchViolations(r) ==
  LET c == r.in k == NumKept(c) x == r.res IN
  IF k = 0 THEN (IF r.code = "OK" THEN {"scored-without-patches"} ELSE {})
  ELSE IF r.code # "OK" THEN {"refused-scoreable"}
  ELSE IF Len(x) # k THEN {"dropped-wrong-patches"}
  ELSE
  LET m == [i \in 1..k |-> PosOf(c, x[i])] IN
  UNION {
    {t \in {"ref-times"} : ~(NearAbs(x[i].rs, FMul(c.r[i], c.fd)) /\
                             NearAbs(x[i].re, FAdd(FMul(c.r[i], c.fd), PatchDur(c))))} \cup
    (IF Unmatched(x[i])
     THEN {t \in {"unmatched-not-zero"} : ~(FEq(x[i].sim, 0) /\ Len(x[i].means) = 3 /\
                                            \A q \in 1..Len(x[i].means) : FEq(x[i].means[q], 0))}
     ELSE {t \in {"deg-times"} : m[i] = None \/ ~NearAbs(x[i].de, FAdd(x[i].ds, PatchDur(c)))} \cup
          (IF m[i] = None THEN {} ELSE
           {t \in {"outside-window"} : m[i] \notin Pos(c, i)} \cup
           {t \in {"not-that-position"} : ~(/\ FEq(x[i].sim, c.sim[i][m[i] + 1])
                                             /\ x[i].means = <<c.sim[i][m[i] + 1], i - 1, m[i]>>
                                             /\ x[i].stds = <<m[i], i - 1>>
                                             /\ x[i].energy = <<i - 1, m[i], 7>>)}))
    : i \in 1..k} \cup
  {t \in {"not-increasing"} : ~(\A i, q \in 1..k : (i < q /\ m[i] # None /\ m[q] # None) => m[i] < m[q])} \cup
  {t \in {"first-unmatched"} : m[1] = None} \cup
  {t \in {"not-optimal"} : ~(\A i \in 1..k : m[i] # None => m[i] \in Pos(c, i)) \/
                           Total(c, m, k) # Optimum(c)}

\* C15 only asks for the patches that are scored.
DropViolations(r) ==
  LET c == r.in k == NumKept(c) x == r.res IN
  IF k = 0 THEN (IF r.code = "OK" THEN {"scored-without-patches"} ELSE {})
  ELSE IF r.code # "OK" THEN {"refused-scoreable"}
  ELSE IF Len(x) # k THEN {"dropped-wrong-patches"}
  ELSE {t \in {"wrong-patch-scored"} :
          \E i \in 1..k : ~NearAbs(x[i].rs, FMul(c.r[i], c.fd))} \cup
       (IF "maxp" \in DOMAIN r
        THEN {t \in {"wrong-maximum"} : r.maxp # Kept([c EXCEPT !.rad = 1000], Len(c.r))} ELSE {})

-----------------------------------------------------------------------------
(* Fine realignment (property C16).  Each recorded patch i has its coarse   *)
(* result, what the alignment of its two audio segments gave (lag in        *)
(* seconds, lengths of the aligned segments) and the new similarity.        *)
Realigned(c, a, i) ==
  LET o == c.coarse[i] v == a[i] s == c.newsim[i]
      new == [ rs |-> IF FGt(v.lag, 0) THEN FAdd(o.rs, v.lag) ELSE F(o.rs),
               ds |-> IF FGt(v.lag, 0) THEN F(o.ds) ELSE FSub(o.ds, v.lag) ]
  IN IF FEq(o.ds, 0) /\ FEq(o.de, 0) THEN [kind |-> "untouched"]
     ELSE IF FLt(s, o.sim) THEN [kind |-> "kept"]
     ELSE [kind |-> "new", rs |-> new.rs, re |-> FAdd(new.rs, FDiv(v.nref, c.rate)),
           ds |-> new.ds, de |-> FAdd(new.ds, FDiv(v.ndeg, c.rate)), sim |-> s]
Same(x, o) == /\ FEq(x.rs, o.rs) /\ FEq(x.re, o.re) /\ FEq(x.ds, o.ds) /\ FEq(x.de, o.de)
              /\ FEq(x.sim, o.sim) /\ x.means = o.means
              /\ x.stds = o.stds /\ x.energy = o.energy
RealignViolations(r) ==
  LET c == r.in fails == \E i \in 1..Len(c.coarse) :
                 ~(FEq(c.coarse[i].ds, 0) /\ FEq(c.coarse[i].de, 0)) /\ c.fail[i] IN
  IF r.alike THEN {}
  ELSE IF fails THEN {t \in {"builder-error-ignored"} : r.code = "OK"}
  ELSE IF r.code # "OK" THEN {"spurious-error"}
  ELSE IF Len(r.res) # Len(c.coarse) THEN {"patch-count"}
  ELSE UNION {
    LET x == r.res[i] e == Realigned(c, r.al, i) IN
    IF e.kind \in {"untouched", "kept"}
    THEN {t \in {IF e.kind = "kept" THEN "lowered-or-changed" ELSE "unmatched-changed"} : ~Same(x, c.coarse[i])}
    ELSE {t \in {"new-similarity"} : ~(FEq(x.sim, e.sim) /\ Len(x.means) = 3 /\ FSeqNear(x.means, <<c.newsim[i], i, i>>, 0))} \cup
         {t \in {"similarity-lowered"} : FLt(x.sim, c.coarse[i].sim)} \cup
         {t \in {"start-times"} : ~(NearAbs(x.rs, e.rs) /\ NearAbs(x.ds, e.ds))} \cup
         {t \in {"end-times"} : ~(NearAbs(x.re, e.re) /\ NearAbs(x.de, e.de))}
    : i \in 1..Len(c.coarse)}

-----------------------------------------------------------------------------
(* Extraction of a time segment (property C17).  Times are given in         *)
(* quarter samples (q0, q1), the sample rate is a power of two, so that     *)
(* every product below is exact.                                            *)
Trunc4(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)
At(x, i) == IF i >= 0 /\ i < Len(x) THEN x[i + 1] ELSE 0
Segment(x, q0, q1) ==
  LET s == Trunc4(q0) e == Trunc4(q1) IN [k \in 1..(e - s) |-> At(x, s + k - 1)]
Zeros(k) == [i \in 1..k |-> 0]
\* What the code does for an end at or past the end of the signal: see
\* known_findings.txt.
KnownSegment(x, q0, q1) ==
  LET s == Trunc4(q0) e == Trunc4(q1) n == Len(x)
      body == SubSeq(x, (IF s < 0 THEN 0 ELSE s) + 1, n - 1)
  IN (IF s < 0 THEN Zeros(-s) ELSE <<>>) \o Zeros(e - n) \o body
SliceViolations(r) ==
  LET c == r.in IN
  {t \in {"sample-rate"} : r.rate # c.rate} \cup
  (IF r.y = Segment(c.x, c.q0, c.q1) THEN {}
   ELSE IF Trunc4(c.q1) >= Len(c.x) /\ r.y = KnownSegment(c.x, c.q0, c.q1)
        THEN {"end-past-signal"}
   ELSE {"wrong-segment"})
==============================================================================
