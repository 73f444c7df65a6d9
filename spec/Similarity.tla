------------------------------ MODULE Similarity ------------------------------
(***************************************************************************)
(* The similarity index of two patches, its aggregation into per-band       *)
(* features, and the exponential quality mapping.  A patch is a sequence of *)
(* bands (rows), each a sequence of frame values.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

-----------------------------------------------------------------------------
(* Patch similarity.                                                        *)
WC == "0.0113033910173052"   \* corner, edge and centre weights of the 3x3 neighbourhood
WE == "0.0838251475442633"
WM == "0.619485845753726"
C1 == "0.0001"
C3 == "0.00045"
Clamp(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
\* weighted mean of the neighbourhood of (b, k), borders replicated
Blur(m, b, k) ==
  LET at(i, j) == m[Clamp(b + i, Len(m))][Clamp(k + j, Len(m[1]))]
  IN FAdd(FAdd(FMul(WC, FAdd(FAdd(at(-1, -1), at(-1, 1)), FAdd(at(1, -1), at(1, 1)))),
               FMul(WE, FAdd(FAdd(at(-1, 0), at(1, 0)), FAdd(at(0, -1), at(0, 1))))),
          FMul(WM, at(0, 0)))
Map2(Op(_, _), a, b) == TLCEval([i \in 1..Len(a) |-> [k \in 1..Len(a[1]) |-> Op(a[i][k], b[i][k])]])
Blurred(m) == TLCEval([b \in 1..Len(m) |-> [k \in 1..Len(m[1]) |-> Blur(m, b, k)]])

\* The similarity at each point.  Where a variance is zero up to rounding the
\* result depends on the sign of the rounding error, so each point gets an
\* interval <<lo, hi>> (a single value everywhere else).
Den(x) == IF FLt(x, 0) THEN F(C3) ELSE FAdd(FSqrt(x), C3)
Point(mr, md, rr, dd, rd) ==
  LET vr == FSub(rr, FMul(mr, mr))
      vd == FSub(dd, FMul(md, md))
      cov == FSub(rd, FMul(mr, md))
      er == FMul("1e-14", rr)      \* rounding of vr and vd
      ed == FMul("1e-14", dd)
      p == FMul(vr, vd)
      e == FAdd(FAdd(FMul(er, FAbs(vd)), FMul(ed, FAbs(vr))), FMul(er, ed))
      i == FDiv(FAdd(FMul(2, FMul(mr, md)), C1), FAdd(FAdd(FMul(mr, mr), FMul(md, md)), C1))
      num == FMul(i, FAdd(cov, C3))
      a == FDiv(num, Den(FSub(p, e)))
      b == FDiv(num, Den(FAdd(p, e)))
  IN TLCEval(<<FMin(a, b), FMax(a, b)>>)
SimMap(r, d) ==
  LET mr == Blurred(r) md == Blurred(d)
      rr == Blurred(Map2(FMul, r, r)) dd == Blurred(Map2(FMul, d, d)) rd == Blurred(Map2(FMul, r, d))
  IN TLCEval([b \in 1..Len(r) |-> [k \in 1..Len(r[1]) |->
               Point(mr[b][k], md[b][k], rr[b][k], dd[b][k], rd[b][k])]])
StdDev(s) == IF Len(s) = 1 THEN F(0)
             ELSE LET m == FMean(s) IN
                  FSqrt(FDiv(FSumSq([i \in 1..Len(s) |-> FSub(s[i], m)]), Len(s) - 1))
Slack == "1e-8"
Within(x, lo, hi) == FLe(FSub(lo, Slack), x) /\ FLe(x, FAdd(hi, Slack))
NsimViolations(r) ==
  LET c == r.in n == Len(c.ref) map == SimMap(c.ref, c.deg)
      lo(b) == FMean([k \in 1..Len(map[b]) |-> map[b][k][1]])
      hi(b) == FMean([k \in 1..Len(map[b]) |-> map[b][k][2]])
      wide(b) == FSeqMax([k \in 1..Len(map[b]) |-> FSub(map[b][k][2], map[b][k][1])])
      los == TLCEval([b \in 1..n |-> lo(b)]) his == TLCEval([b \in 1..n |-> hi(b)])
  IN IF Len(r.means) # n \/ Len(r.stds) # n \/ Len(r.energy) # n THEN {"band-count"}
     ELSE {t \in {"band-means"} : \E b \in 1..n : ~Within(r.means[b], los[b], his[b])} \cup
          {t \in {"similarity-is-mean"} : ~FLe(FAbs(FSub(r.sim, FMean(r.means))), "1e-9")} \cup
          {t \in {"band-deviations"} : \E b \in 1..n :
             ~FLe(FAbs(FSub(r.stds[b], StdDev([k \in 1..Len(map[b]) |-> map[b][k][1]]))),
                  FAdd(Slack, FMul(2, wide(b))))} \cup
          {t \in {"degraded-energy"} : ~FSeqNear(r.energy, [b \in 1..n |-> FMean(c.deg[b])], "1e-9")} \cup
          {t \in {"above-one"} : ~FLe(r.sim, "1.00000001") \/ \E b \in 1..n : ~FLe(r.means[b], "1.00000001")} \cup
          {t \in {"not-symmetric"} : ~FLe(FAbs(FSub(r.sim, r.swapped)), Slack)} \cup
          {t \in {"identical-not-one"} :
             \E q \in {r.same, r.samedeg} : ~FLe(FAbs(FSub(q.sim, 1)), "1e-6") \/
                \E b \in 1..n : ~FLe(FAbs(FSub(q.means[b], 1)), "1e-6") \/ ~FLe(q.stds[b], "1e-6")} \cup
          {t \in {"input-changed"} : ~r.kept}

-----------------------------------------------------------------------------
(* Aggregation: patches p[i] with band means, deviations, energies and      *)
(* durations; fd is the frame duration.                                     *)
Bands(p) == Len(p[1].means)
Mean(p, Get(_), b) == FMean([i \in 1..Len(p) |-> Get(p[i])[b]])
Means(x) == x.means
Energy(x) == x.energy
\* largest integer below len*q/100, at least one
QuantileCount(n, pct) == LET k == (n * pct) \div 100 IN IF k = 0 THEN 1 ELSE k
Quantile(p, b, pct) ==
  LET s == FSorted([i \in 1..Len(p) |-> p[i].means[b]])
  IN FMean(SubSeq(s, 1, QuantileCount(Len(p), pct)))
\* frames of a patch; slack absorbs the rounding of the division
Frames(x, fd, slack) == FCeil(FSub(FDiv(FSub(x.re, x.rs), fd), slack))
PooledVar(p, b, fd, slack) ==
  LET f == TLCEval([i \in 1..Len(p) |-> Frames(p[i], fd, slack)])
      total == FSum(f)
      m == Mean(p, Means, b)
      part(i) == FAdd(FMul(FSub(f[i], 1), FMul(p[i].stds[b], p[i].stds[b])),
                      FMul(f[i], FMul(p[i].means[b], p[i].means[b])))
  IN FDiv(FSub(FSum([i \in 1..Len(p) |-> part(i)]), FMul(total, FMul(m, m))), FSub(total, 1))
Pooled(p, b, fd, slack) == LET v == PooledVar(p, b, fd, slack) IN IF FLt(v, 0) THEN F(0) ELSE FSqrt(v)
DevOk(x, want) == FLe(FAbs(FSub(FMul(x, x), FMul(want, want))), "1e-10") /\ FLe(0, x)

\* r: patches, fd, and the result's vectors
AggViolations(r) ==
  LET p == r.patches n == Bands(p) IN
  IF Len(r.fvnsim) # n \/ Len(r.fvnsim10) # n \/ Len(r.fstdnsim) # n \/ Len(r.fvdegenergy) # n
  THEN {"vector-length"}
  ELSE
  {t \in {"fvnsim"} : ~FSeqNear(r.fvnsim, [b \in 1..n |-> Mean(p, Means, b)], "1e-9")} \cup
  {t \in {"fvdegenergy"} : ~FSeqNear(r.fvdegenergy, [b \in 1..n |-> Mean(p, Energy, b)], "1e-9")} \cup
  {t \in {"fvnsim10"} : ~FSeqNear(r.fvnsim10, [b \in 1..n |-> Quantile(p, b, 10)], "1e-9")} \cup
  {t \in {"fstdnsim"} : \E b \in 1..n :
     ~(DevOk(r.fstdnsim[b], Pooled(p, b, r.fd, 0)) \/ DevOk(r.fstdnsim[b], Pooled(p, b, r.fd, "1e-9")))} \cup
  {t \in {"vnsim"} : ~FLe(FAbs(FSub(r.vnsim, FMean(r.fvnsim))), "1e-9")}

\* A whole comparison with recording stand-ins: what the mapper was given, and
\* that its prediction is the score unless the signals are too dissimilar.
PipeViolations(r) ==
  IF r.code # "OK" THEN {"spurious-error"}
  ELSE AggViolations(r) \cup
       {t \in {"mapper-input"} : ~(r.mapper = <<<<r.fvnsim, r.fvnsim10, r.fstdnsim, r.fvdegenergy>>>>)} \cup
       (IF FLt(FAbs(FSub(r.vnsim, "0.15")), "1e-9") THEN {}
        ELSE {t \in {"score"} : ~FEq(r.moslqo, IF FLt(r.vnsim, "0.15") THEN 1 ELSE r.in.mos)}) \cup
       {t \in {"centre-frequencies"} : ~FSeqNear(r.cf, r.in.cf, 0)} \cup
       {t \in {"patch-count"} : Len(r.patches) # Len(r.in.starts)} \cup
       {t \in {"level-matching"} : ~r.scaled} \cup
       {t \in {"reference-changed"} : ~r.refkept} \cup
       {t \in {"patch-data"} :
          \E i \in 1..Len(r.patches) :
            LET q == r.patches[i] fine == r.in.realign /\ ~FLt(r.in.fine[i].sim, r.in.coarse[i].sim)
                e == IF fine THEN r.in.fine[i] ELSE r.in.coarse[i]
            IN ~(FEq(q.sim, e.sim) /\ FSeqNear(q.means, e.means, 0) /\ FSeqNear(q.stds, e.stds, 0)
                 /\ FSeqNear(q.energy, e.energy, 0))}

QuantileViolations(r) ==
  LET p == r.in.patches n == Bands(p) IN
  {t \in {"quantile"} : ~FSeqNear(r.q, [b \in 1..n |-> Quantile(p, b, r.in.pct)], "1e-9")}

-----------------------------------------------------------------------------
(* The exponential mapping of the mean similarity to a score.               *)
RawMos(v) == FAdd("-262.847869", FExp(FMul("0.0154302525", FSub(v, "-361.063949"))))
Clamped(x) == FMax(1, FMin(5, x))
Mapped(v, scaled) == Clamped(FMul(RawMos(v), IF scaled THEN "1.245063" ELSE 1))
MapViolations(r) ==
  LET c == r.in IN      \* c.v: lists of band similarities; r.scaled, r.unscaled
  UNION {
    LET m == FMean(c.v[i]) s == r.scaled[i] u == r.unscaled[i] IN
    {t \in {"scaled"} : ~FNear(s, Mapped(m, TRUE), "1e-6")} \cup
    {t \in {"unscaled"} : ~FNear(u, Mapped(m, FALSE), "1e-6")} \cup
    {t \in {"range"} : ~(FIn(s, 1, 5) /\ FIn(u, 1, 5))} \cup
    {t \in {"only-the-mean"} : ~FNear(r.perm[i], s, "1e-9") \/ ~FNear(r.flat[i], s, "1e-9")
                               \/ ~FNear(r.otherfeatures[i], s, 0)} \cup
    (IF FEq(m, 1) THEN {t \in {"anchor"} : ~(FNear(s, 5, "1e-5") /\ FNear(u, "4.015859", "1e-5"))} ELSE {})
    : i \in 1..Len(c.v)} \cup
  {t \in {"not-monotone"} : \E i, j \in 1..Len(c.v) :
     FLt(FMean(c.v[i]), FSub(FMean(c.v[j]), "1e-9")) /\
     (FLt(r.scaled[j], r.scaled[i]) \/ FLt(r.unscaled[j], r.unscaled[i]))}

-----------------------------------------------------------------------------
(* Level matching: the degraded signal is multiplied by the factor that     *)
(* gives it the reference's mean power; a silent one has no level to match. *)
Power(x) == FDiv(FSumSq(x), Len(x))
Silent(x) == FEq(FSumSq(x), 0)
Factor(ref, deg) == IF Silent(deg) THEN F(1) ELSE FSqrt(FDiv(Power(ref), Power(deg)))
Matched(ref, deg) == FScale(deg, Factor(ref, deg))
LevelViolations(r) ==
  LET c == r.in y == Matched(c.ref, c.deg)
      big == FAdd(FSeqMax([i \in 1..Len(y) |-> FAbs(y[i])]), "1e-300")
      near(s) == Len(s) = Len(y) /\ \A i \in 1..Len(y) : FLe(FAbs(FSub(s[i], y[i])), FMul("1e-9", big))
  IN {t \in {"level"} : ~near(r.y)} \cup
     {t \in {"shape"} : ~(r.rows = Len(c.deg) /\ r.cols = 1 /\ r.rate = c.rdeg)} \cup
     {t \in {"depends-on-level"} : \E i \in 1..Len(r.more) : ~near(r.more[i])} \cup
     {t \in {"inputs-changed"} : ~r.kept}

SimViolations(r) ==
  CASE r.in.op = "nsim" -> NsimViolations(r)
    [] r.in.op = "pipe" -> PipeViolations(r)
    [] r.in.op = "quantile" -> QuantileViolations(r)
    [] r.in.op = "map" -> MapViolations(r)
    [] r.in.op = "level" -> LevelViolations(r)
==============================================================================
