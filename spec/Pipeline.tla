------------------------------- MODULE Pipeline -------------------------------
(***************************************************************************)
(* A whole comparison: the stages a pair of signals goes through, which of  *)
(* them can fail, how the options choose and parametrise them, and what a   *)
(* result must satisfy.  Plan(opt) is executable: the driver runs the real  *)
(* components stage by stage as it says, and the manager must agree.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64
Sim == INSTANCE Similarity
Spc == INSTANCE Spectro
Seg == INSTANCE Segmentation

-----------------------------------------------------------------------------
(* The modes.                                                               *)
BandCount(opt) == IF opt.speech THEN 21 ELSE 32
PatchFrames(opt) == IF opt.speech THEN 20 ELSE 30
LowestBand == 50
TopBand(opt, rate) == IF opt.speech THEN FMin(8000, FDiv(rate, 2)) ELSE FDiv(rate, 2)
WindowMs == 80
PerWindow == 4           \* frame steps in a window
\* the lattice exists for speech only
Mapper(opt) == IF ~opt.speech THEN "svr" ELSE IF opt.lattice THEN "lattice"
               ELSE IF opt.unscaled THEN "unscaled" ELSE "scaled"

Stage(f) == [do |-> f]
Analyse(opt, which) == [do |-> "analyse", what |-> which, ms |-> WindowMs, perwindow |-> PerWindow,
                        bands |-> BandCount(opt), low |-> LowestBand, capped |-> opt.speech]
Plan(opt) ==
  (IF opt.noalign THEN <<>> ELSE <<Stage("align")>>)
  \o <<Stage("level"), Analyse(opt, "ref"), Analyse(opt, "deg"), Stage("prepare"),
       [do |-> "segment", by |-> IF opt.speech THEN "voice" ELSE "tiles", frames |-> PatchFrames(opt)],
       [do |-> "match", radius |-> opt.radius]>>
  \o (IF opt.norealign THEN <<>> ELSE <<Stage("realign")>>)
  \o <<Stage("aggregate"), [do |-> "map", by |-> Mapper(opt)], Stage("bound")>>

(* Stages that can fail, and how the comparison then ends.                   *)
FailCode(f) == CASE f = "validate" -> "INVALID_ARGUMENT"
                 [] f = "analyse" -> "INVALID_ARGUMENT"     \* not more than one window
                 [] f = "segment" -> "INVALID_ARGUMENT"     \* no room for a patch
                 [] f = "match" -> "CANCELLED"              \* nothing of the degraded signal is in reach
                 [] f = "realign" -> "INVALID_ARGUMENT"
Fallible(s) == s.do \in {"analyse", "segment", "match", "realign"}

(* What each stage does to the artefacts of a comparison.  An artefact is    *)
(* what happened to it so far: the signal it comes from and the stages.      *)
Fresh == [ref |-> <<"ref">>, deg |-> <<"deg">>, lag |-> <<"zero">>]
Set(have, k, v) == (k :> v) @@ have
After(have, s) ==
  CASE s.do = "align"   -> Set(Set(have, "deg", Append(have.deg, "aligned")), "lag", <<"measured">>)
    [] s.do = "level"   -> Set(have, "deg", Append(have.deg, "levelled"))
    [] s.do = "analyse" -> Set(have, "S" \o s.what, have[s.what])
    [] s.do = "prepare" -> Set(Set(have, "Sref", Append(have.Sref, "prepared")), "Sdeg", Append(have.Sdeg, "prepared"))
    [] s.do = "segment" -> Set(have, "starts", have.Sref)
    [] s.do = "match"   -> Set(have, "patches", <<"coarse">> \o have.Sref \o have.Sdeg)
    [] s.do = "realign" -> Set(have, "patches", <<"fine">> \o have.ref \o have.deg)
    [] s.do = "aggregate" -> Set(have, "features", have.patches)
    [] s.do = "map"     -> Set(have, "mos", <<s.by>> \o have.features)
    [] s.do = "bound"   -> Set(have, "mos", Append(have.mos, "bounded"))
Needs(s) ==
  CASE s.do \in {"align", "level"} -> {"ref", "deg"}
    [] s.do = "analyse" -> {s.what}
    [] s.do = "prepare" -> {"Sref", "Sdeg"}
    [] s.do = "segment" -> {"Sref", "ref"}
    [] s.do = "match" -> {"Sref", "Sdeg", "starts"}
    [] s.do = "realign" -> {"patches", "ref", "deg"}
    [] s.do = "aggregate" -> {"patches"}
    [] s.do = "map" -> {"features"}
    [] s.do = "bound" -> {"mos", "features"}

-----------------------------------------------------------------------------
(* Judging a recorded run.  opt: the options; r: init, code, lattice (how    *)
(* often the lattice was evaluated), ref and deg (lengths and rates), full   *)
(* (the result), stages (what the components gave, stage by stage).          *)
Hop(rate) == FRound(FDiv(FMul(rate, WindowMs), 1000)) \div PerWindow
WindowSize(rate) == FRound(FDiv(FMul(rate, WindowMs), 1000))
Step(rate) == FDiv(Hop(rate), rate)
Comparable(r) == r.ref.n > 0 /\ r.deg.n > 0 /\ r.ref.rate > 0 /\ r.ref.rate = r.deg.rate
AllFinite(s) == \A i \in 1..Len(s) : FFinite(s[i])
Null(q) == FEq(q.ds, 0) /\ FEq(q.de, 0)

\* C03
Consistent(opt, f) ==
  LET n == BandCount(opt) p == f.patches IN
  {t \in {"score-range"} : ~(FFinite(f.mos) /\ FIn(f.mos, 1, 5))} \cup
  {t \in {"vector-length"} : \E k \in {"fvnsim", "fvnsim10", "fstd", "fen", "bands"} : Len(f[k]) # n} \cup
  {t \in {"not-finite"} : ~(\A k \in {"fvnsim", "fvnsim10", "fstd", "fen", "bands"} : AllFinite(f[k]))
                          \/ ~FFinite(f.vnsim) \/ ~FFinite(f.lag)} \cup
  {t \in {"bands-increase"} : \E b \in 1..(Len(f.bands) - 1) : ~FLt(f.bands[b], f.bands[b + 1])} \cup
  {t \in {"vnsim-mean"} : ~FLe(FAbs(FSub(f.vnsim, FMean(f.fvnsim))), "1e-9")} \cup
  {t \in {"no-patches"} : p = <<>>} \cup
  {t \in {"patch-bands"} : \E i \in 1..Len(p) : Len(p[i].means) # n} \cup
  (IF p = <<>> \/ Len(f.fvnsim) # n \/ \E i \in 1..Len(p) : Len(p[i].means) # n THEN {} ELSE
   {t \in {"patch-similarity"} : \E i \in 1..Len(p) : ~FLe(FAbs(FSub(p[i].sim, FMean(p[i].means))), "1e-9")} \cup
   {t \in {"fvnsim-mean"} : \E b \in 1..n :
      ~FLe(FAbs(FSub(f.fvnsim[b], FMean([i \in 1..Len(p) |-> p[i].means[b]]))), "1e-9")} \cup
   {t \in {"lowest-patches"} : \E b \in 1..n :
      ~FLe(FAbs(FSub(f.fvnsim10[b], LET s == FSorted([i \in 1..Len(p) |-> p[i].means[b]])
                                    IN FMean(SubSeq(s, 1, Sim!QuantileCount(Len(p), 10))))), "1e-9")} \cup
   {t \in {"similarity-above-one"} : \E i \in 1..Len(p) : ~FLe(p[i].sim, "1.00000001")} \cup
   {t \in {"negative-deviation"} : \E b \in 1..n : FLt(f.fstd[b], 0)} \cup
   {t \in {"patch-times"} : \E i \in 1..Len(p) : ~(FLe(p[i].rs, p[i].re) /\ FLe(p[i].ds, p[i].de)
                                                   /\ FLe(0, p[i].rs) /\ FLe(0, p[i].ds))} \cup
   {t \in {"reference-order"} : \E i \in 1..(Len(p) - 1) : ~FLt(p[i].rs, p[i + 1].rs)})
ConsistentViolations(opt, r) == IF r.code = "OK" THEN Consistent(opt, r.full) ELSE {}

\* C11: what the options decide, from the result alone ...
ModeViolations(opt, r) ==
  LET f == r.full rate == r.ref.rate p == f.patches n == BandCount(opt) w == PatchFrames(opt)
      step == Step(rate) len == FMul(step, w) cols == Spc!Columns(r.ref.n, WindowSize(rate), Hop(rate))
      near(a, b) == FLe(FAbs(FSub(a, b)), "1e-9")
  IN
  {t \in {"bands"} : ~(Len(f.bands) = n /\ FSeqNear(f.bands, Spc!Centres(n, LowestBand, TopBand(opt, rate)), "1e-9"))} \cup
  {t \in {"feature-length"} : Len(f.fvnsim) # n} \cup
  {t \in {"lattice-use"} : r.lattice # IF Mapper(opt) = "lattice" THEN 1 ELSE 0} \cup
  {t \in {"lag-without-alignment"} : opt.noalign /\ ~FEq(f.lag, 0)} \cup
  {t \in {"mapping"} : Mapper(opt) \in {"scaled", "unscaled"} /\ FLe("1e-6", FAbs(FSub(f.vnsim, "0.15"))) /\
     ~FNear(f.mos, IF FLt(f.vnsim, "0.15") THEN 1 ELSE Sim!Mapped(f.vnsim, Mapper(opt) = "scaled"), "1e-6")} \cup
  (IF ~opt.norealign THEN {} ELSE
   {t \in {"patch-duration"} : \E i \in 1..Len(p) : ~(near(FSub(p[i].re, p[i].rs), len)
                                                      /\ (Null(p[i]) \/ near(FSub(p[i].de, p[i].ds), len)))} \cup
   {t \in {"search-radius"} : \E i \in 1..Len(p) : ~Null(p[i]) /\
      ~FLe(FAbs(FSub(p[i].ds, p[i].rs)), FAdd(FMul(opt.radius, len), "1e-9"))} \cup
   (IF opt.speech
    THEN {t \in {"speech-blocks"} : \E i \in 1..Len(p) :
            ~\E k \in 0..((cols - Seg!FirstBlock(w)) \div w) : near(p[i].rs, FMul(step, Seg!FirstBlock(w) + k * w))}
    ELSE LET s == Seg!AudioStarts(cols, w) IN
         {t \in {"tiles"} : Len(p) > Len(s) \/ \E i \in 1..Len(p) : ~near(p[i].rs, FMul(step, s[i]))}))

\* ... and against the stages of the plan.
Feature(p, Get(_)) == [b \in 1..Len(p[1].means) |-> FMean([i \in 1..Len(p) |-> Get(p[i])[b]])]
StageViolations(opt, r) ==
  LET s == r.stages f == r.full IN
  IF r.code # s.code THEN {"stage-fails-" \o s.failed}
  ELSE IF r.code # "OK" THEN {t \in {"failure-code"} : r.code # FailCode(s.failed)}
  ELSE LET p == s.patches q == f.patches near(a, b) == FLe(FAbs(FSub(a, b)), "1e-9") IN
  {t \in {"lag"} : ~near(f.lag, s.lag)} \cup
  {t \in {"centre-frequencies"} : ~FSeqNear(f.bands, s.cf, "1e-12")} \cup
  (IF Len(p) # Len(q) THEN {"patch-count"} ELSE
   {t \in {"patch-times"} : \E i \in 1..Len(p) : \E k \in {"rs", "re", "ds", "de"} : ~near(p[i][k], q[i][k])} \cup
   {t \in {"patch-similarity"} : \E i \in 1..Len(p) : ~near(p[i].sim, q[i].sim) \/ ~FSeqNear(q[i].means, p[i].means, "1e-9")} \cup
   {t \in {"features"} : ~(FSeqNear(f.fvnsim, Feature(p, Sim!Means), "1e-9") /\ FSeqNear(f.fen, Feature(p, Sim!Energy), "1e-9")
                           /\ FSeqNear(f.fvnsim10, [b \in 1..Len(f.fvnsim10) |-> Sim!Quantile(p, b, 10)], "1e-9"))} \cup
   {t \in {"deviations"} : \E b \in 1..Len(f.fstd) :
      ~(Sim!DevOk(f.fstd[b], Sim!Pooled(p, b, Step(r.ref.rate), 0)) \/ Sim!DevOk(f.fstd[b], Sim!Pooled(p, b, Step(r.ref.rate), "1e-9")))} \cup
   {t \in {"score"} : FLe("1e-9", FAbs(FSub(f.vnsim, "0.15"))) /\
      ~near(f.mos, IF FLt(f.vnsim, "0.15") THEN 1 ELSE s.mapped)})
PlanViolations(opt, r) ==
  IF r.init # "OK" THEN {"init"}
  ELSE IF ~Comparable(r) THEN {t \in {"not-comparable"} : r.code # FailCode("validate")}
  ELSE (IF r.code = "OK" THEN ModeViolations(opt, r) ELSE {}) \cup
       (IF "stages" \in DOMAIN r THEN StageViolations(opt, r) ELSE {}) \cup
       (IF "want" \in DOMAIN r THEN {t \in {"outcome"} : r.code # r.want} ELSE {})

-----------------------------------------------------------------------------
(* Laws of whole comparisons (C31, C23).                                     *)
Ones(s, tol) == \A i \in 1..Len(s) : FLe(FAbs(FSub(s[i], 1)), tol)
\* tol: how close to one
Identical(f, tol) ==
  {t \in {"similarity-not-one"} : ~(Ones(f.fvnsim, tol) /\ Ones(f.fvnsim10, tol) /\ FLe(FAbs(FSub(f.vnsim, 1)), tol)
     /\ \A i \in 1..Len(f.patches) : FLe(FAbs(FSub(f.patches[i].sim, 1)), tol) /\ Ones(f.patches[i].means, tol))} \cup
  {t \in {"deviates"} : \E b \in 1..Len(f.fstd) : ~FLe(f.fstd[b], FSqrt(tol))}
PerfectScore(opt) == CASE Mapper(opt) = "scaled" -> F(5)
                       [] Mapper(opt) = "unscaled" -> F("4.015861169223797")
                       [] Mapper(opt) = "svr" -> F("4.732101253042348")
InPlace(f) == {t \in {"matched-elsewhere"} : \E i \in 1..Len(f.patches) :
                 LET q == f.patches[i] IN ~(FLe(FAbs(FSub(q.ds, q.rs)), "1e-9") /\ FLe(FAbs(FSub(q.de, q.re)), "1e-9"))}
\* c.delay: samples the degraded signal is late; c.distinct: no part of the
\* signal looks like another
IdentityViolations(opt, c, r) ==
  IF r.code # "OK" THEN {t \in {"not-scored"} : ~c.short}
  ELSE LET f == r.full IN
    {t \in {"lag"} : ~FLe(FAbs(FSub(f.lag, FDiv(-c.delay, r.ref.rate))), "1e-9")} \cup
    Identical(f, "1e-6") \cup
    (IF c.distinct THEN InPlace(f) ELSE {}) \cup
    {t \in {"perfect-score"} : opt.model # "" /\ Mapper(opt) # "lattice" /\ ~FNear(f.mos, PerfectScore(opt), "1e-5")}

\* The same pair with the degraded signal at other levels.
SameResult(f, g, tol) ==
  {t \in {"score-depends-on-level"} : ~FLe(FAbs(FSub(f.mos, g.mos)), tol)} \cup
  {t \in {"features-depend-on-level"} : ~(FSeqNear(g.fvnsim, f.fvnsim, tol) /\ FSeqNear(g.fvnsim10, f.fvnsim10, tol)
      /\ FSeqNear(g.fen, f.fen, tol) /\ \A b \in 1..Len(f.fstd) : FLe(FAbs(FSub(f.fstd[b], g.fstd[b])), FSqrt(tol))
      /\ FLe(FAbs(FSub(f.vnsim, g.vnsim)), tol))} \cup
  {t \in {"alignment-depends-on-level"} : ~FLe(FAbs(FSub(f.lag, g.lag)), tol)} \cup
  {t \in {"patches-depend-on-level"} : Len(f.patches) # Len(g.patches) \/ \E i \in 1..Len(f.patches) :
      \E k \in {"sim", "rs", "re", "ds", "de"} : ~FLe(FAbs(FSub(f.patches[i][k], g.patches[i][k])), tol)}
LevelLaw(rs) ==
  UNION { IF rs[i].code # rs[1].code THEN {"status-depends-on-level"}
          ELSE IF rs[i].code # "OK" THEN {} ELSE SameResult(rs[1].full, rs[i].full, "1e-6") : i \in 2..Len(rs) }

-----------------------------------------------------------------------------
(* The published scores (conformance number 333).                            *)
Published ==
  [ strauss |-> "1.3888791489130758", steely |-> "2.2501683734385183", sopr |-> "4.68228969737946",
    ravel |-> "4.465141897255348", moonlight |-> "4.684292801646114", harpsichord |-> "4.22374532766003",
    guitar |-> "4.349722308064298", shortdeg |-> "4.314508583690198", shortref |-> "4.550791119387646",
    glock |-> "4.332452943882108", contrabassoon |-> "2.346868205375293", castanets |-> "4.732101253042348",
    ca01 |-> "3.374505555111911", ca01unscaled |-> "4.015861169223797",
    different |-> "1.269675546824064", bad |-> "1.357521678867611", ca01audio |-> "1.7658378752958486" ]
PublishedViolations(c, r) ==
  IF r.code # "OK" THEN {"not-scored"}
  ELSE {t \in {"score-" \o c.name} : ~FLe(FAbs(FSub(r.full.mos, Published[c.name])), "1e-4")}
==============================================================================
