-------------------------------- MODULE Spectro --------------------------------
(***************************************************************************)
(* From samples to the spectrograms that are compared: the filter bank on   *)
(* the ERB scale, framing, and the preparation for comparison.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64, SequencesExt

Pi == "3.14159265358979323846"
EarQ == "9.26449"
MinBw == "24.7"

-----------------------------------------------------------------------------
(* Centre frequencies: equally spaced on the ERB-rate scale                  *)
(* erbrate(f) ~ ln(f + EarQ*MinBw), from low (included) to high (excluded).  *)
ErbRate(f) == FLn(FAdd(f, FMul(EarQ, MinBw)))
Limit(high, fs) == FMin(high, FDiv(fs, 2))
\* band 1 is the lowest
Centre(b, n, low, high) ==
  LET lo == ErbRate(low) hi == ErbRate(high)
  IN FSub(FExp(FAdd(lo, FMul(FDiv(b - 1, n), FSub(hi, lo)))), FMul(EarQ, MinBw))
Centres(n, low, high) == TLCEval([b \in 1..n |-> Centre(b, n, low, high)])

\* The gammatone filter of a centre frequency: four second-order sections with
\* common poles, normalised to unit gain at the centre frequency.
Cx(re, im) == <<re, im>>
CMul(a, b) == <<FSub(FMul(a[1], b[1]), FMul(a[2], b[2])), FAdd(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
CAbs(a) == FSqrt(FAdd(FMul(a[1], a[1]), FMul(a[2], a[2])))
Filter(f, fs) ==
  LET T == FDiv(1, fs)
      B == FMul(FMul("1.019", FMul(2, Pi)), FAdd(FDiv(f, EarQ), MinBw))
      w == FMul(FMul(FMul(2, Pi), f), T)
      d == FExp(FMul(-1, FMul(B, T)))                       \* decay per sample
      k(sgn, inner) == FMul(sgn, FSqrt(FAdd(3, FMul(inner, FPow(2, "1.5")))))
      a1(sgn, inner) == FMul(FMul(-1, FMul(T, d)), FAdd(FCos(w), FMul(k(sgn, inner), FSin(w))))
      zeros == TLCEval(<<a1(1, 1), a1(-1, 1), a1(1, -1), a1(-1, -1)>>)
      b1 == FMul(FMul(-2, FCos(w)), d)
      b2 == FMul(d, d)
      \* response at the centre frequency; z^-1 = exp(-i w)
      z1 == Cx(FCos(w), FMul(-1, FSin(w)))
      z2 == CMul(z1, z1)
      num(a) == CAbs(<<FAdd(T, FMul(a, z1[1])), FMul(a, z1[2])>>)
      den == CAbs(<<FAdd(1, FAdd(FMul(b1, z1[1]), FMul(b2, z2[1]))),
                    FAdd(FMul(b1, z1[2]), FMul(b2, z2[2]))>>)
      gain == FDiv(FMul(FMul(num(zeros[1]), num(zeros[2])), FMul(num(zeros[3]), num(zeros[4]))),
                   FPow(den, 4))
  IN TLCEval([t |-> T, zeros |-> zeros, b1 |-> b1, b2 |-> b2, gain |-> gain])

\* One sample through the four sections.  State: (s, t) of each section, the
\* transposed direct form; y: the output.
Idle == [s |-> <<0, 0, 0, 0>>, t |-> <<0, 0, 0, 0>>, y |-> 0]
Tick(flt, st, x) ==
  LET sec(i, in) ==      \* <<output, new s, new t>> of section i
        LET a0 == IF i = 1 THEN FDiv(flt.t, flt.gain) ELSE flt.t
            a1 == IF i = 1 THEN FDiv(flt.zeros[1], flt.gain) ELSE flt.zeros[i]
            y == FAdd(FMul(a0, in), st.s[i])
        IN TLCEval(<<y, FSub(FAdd(FMul(a1, in), st.t[i]), FMul(flt.b1, y)), FMul(-1, FMul(flt.b2, y))>>)
      r1 == sec(1, x)
      r2 == sec(2, r1[1])
      r3 == sec(3, r2[1])
      r4 == sec(4, r3[1])
  IN TLCEval([s |-> <<r1[2], r2[2], r3[2], r4[2]>>, t |-> <<r1[3], r2[3], r3[3], r4[3]>>, y |-> r4[1]])
RunFilter(flt, xs) ==
  FoldLeft(LAMBDA acc, x : LET st == Tick(flt, acc[1], x) IN TLCEval(<<st, Append(acc[2], st.y)>>),
           <<Idle, <<>>>>, xs)[2]

-----------------------------------------------------------------------------
(* Framing.                                                                 *)
Columns(n, size, hop) == 1 + (n - size) \div hop
Hann(i, size) == FSub("0.5", FMul("0.5", FCos(FDiv(FMul(FMul(2, Pi), i), size - 1))))
Windowed(x, k, size, hop) ==
  TLCEval([i \in 1..size |-> FMul(Hann(i - 1, size), x[k * hop + i])])
Energy(flt, frame) == FSqrt(FDiv(FSumSq(RunFilter(flt, frame)), Len(frame)))

BuildViolations(r) ==
  LET c == r.in n == Len(c.x)
      high == IF c.speech THEN Limit(8000, c.rate) ELSE FDiv(c.rate, 2)
      cf == Centres(c.bands, c.low, high)
      cols == Columns(n, c.size, c.hop) IN
  IF n <= c.size THEN {t \in {"too-short-accepted"} : r.code # "INVALID_ARGUMENT"}
  ELSE IF r.code # "OK" THEN {"long-enough-rejected"}
  ELSE {t \in {"columns"} : r.cols # cols} \cup {t \in {"rows"} : r.rows # c.bands} \cup
       {t \in {"centre-frequencies"} : ~(Len(r.cf) = c.bands /\ FSeqNear(r.cf, cf, "1e-9"))} \cup
       (IF r.cols # cols \/ r.rows # c.bands THEN {} ELSE
        UNION {
          LET fr == Windowed(c.x, k, c.size, c.hop)
              want == TLCEval([b \in 1..c.bands |-> Energy(Filter(cf[b], c.rate), fr)])
              top == FMax(FSeqMax(want), "1e-300")
          IN {t \in {"column-values"} :
                \E b \in 1..c.bands : ~FLe(FAbs(FSub(r.data[b][k + 1], want[b])), FMul("1e-7", top))}
          : k \in {q \in 0..(cols - 1) : (q + 1) \in {c.check[i] : i \in 1..Len(c.check)}}})

\* Realistic sizes: column k of the whole signal against the column obtained
\* from that window alone, from a signal that differs everywhere else, and from
\* another builder that has processed something else before.
FrameViolations(r) ==
  LET c == r.in IN
  IF c.n <= r.size THEN {t \in {"too-short-accepted"} : r.code # "INVALID_ARGUMENT"}
  ELSE IF r.code # "OK" THEN {"long-enough-rejected"}
  ELSE {t \in {"columns"} : r.cols # Columns(c.n, r.size, r.size \div 4)} \cup
       {t \in {"rows"} : r.rows # c.bands} \cup
       {t \in {"depends-on-other-samples"} : \E i \in 1..Len(r.probe) : r.probe[i].alone # r.probe[i].whole
                                              \/ r.probe[i].other # r.probe[i].whole} \cup
       {t \in {"equal-windows-differ"} : \E i \in 1..Len(r.probe) : r.probe[i].copy # r.probe[i].whole} \cup
       {t \in {"insensitive-to-own-samples"} : \E i \in 1..Len(r.probe) : r.probe[i].changed = r.probe[i].whole}

-----------------------------------------------------------------------------
(* The filter bank by itself.                                               *)
Near(a, b, top, tol) == FLe(FAbs(FSub(a, b)), FMul(tol, FMax(top, "1e-300")))
BankViolations(r) ==
  LET c == r.in high == Limit(c.high, c.rate) cf == Centres(c.bands, c.low, high) IN
  \* centres as computed, highest first
  {t \in {"centres"} : ~(Len(r.cf) = c.bands /\
                         FSeqNear([b \in 1..c.bands |-> r.cf[c.bands + 1 - b]], cf, "1e-9"))} \cup
  (IF Len(r.cf) # c.bands THEN {} ELSE
   {t \in {"not-increasing"} : \E b \in 1..(c.bands - 1) : ~FLt(r.cf[b + 1], r.cf[b])} \cup
   {t \in {"out-of-range"} : ~(FNear(r.cf[c.bands], c.low, "1e-9") /\ FLt(r.cf[1], high))} \cup
   {t \in {"erb-spacing"} :
      \E b \in 1..(c.bands - 2) :
        ~Near(FSub(ErbRate(r.cf[b]), ErbRate(r.cf[b + 1])),
              FSub(ErbRate(r.cf[b + 1]), ErbRate(r.cf[b + 2])), 1, "1e-9")}) \cup
  \* outputs of each row, lowest band first, for each signal after a reset
  UNION {
    UNION {
      LET want == RunFilter(Filter(cf[b], c.rate), c.signals[s])
          got == r.out[s][b]
          top == FSeqMax([i \in 1..Len(want) |-> FAbs(want[i])])
      IN {t \in {"filter-output"} : ~(Len(got) = Len(want) /\
             \A i \in 1..Len(want) : Near(got[i], want[i], top, "1e-7"))}
      : b \in {q \in 1..c.bands : q \in {c.check[i] : i \in 1..Len(c.check)}}}
    : s \in 1..Len(c.signals)} \cup
  \* the same signals again, cut into pieces without a reset: same output
  {t \in {"state-not-carried"} : r.pieces # r.out} \cup
  {t \in {"reset"} : r.again # r.out}

\* Selectivity with realistic parameters: level of each band for tones at the
\* centre frequencies.
ToneViolations(r) ==
  LET c == r.in n == c.bands IN
  {t \in {"tone-in-wrong-band"} :
     \E b \in 1..n : \E q \in 1..n :
        (q < b - 2 \/ q > b + 2) /\ ~FLt(r.level[b][q], FMul(r.level[b][b], "0.9"))} \cup
  {t \in {"gain-at-centre"} : \E b \in 1..n : ~FIn(r.level[b][b], "0.60", "0.80")}

-----------------------------------------------------------------------------
(* Preparation of a pair of spectrograms for comparison.  A spectrogram is  *)
(* a sequence of frames, each a sequence of band values.                    *)
Eps == "2.220446049250313e-16"
Db(v) == FMul(10, FLog10(IF FEq(v, 0) THEN Eps ELSE FAbs(v)))
ToDb(s) == TLCEval([k \in 1..Len(s) |-> [b \in 1..Len(s[k]) |-> FMax(-45, Db(s[k][b]))]])
Cut(s, other) ==
  TLCEval([k \in 1..Len(s) |->
     IF k > Len(other) THEN s[k]
     ELSE LET floor == FSub(FMax(FSeqMax(s[k]), FSeqMax(other[k])), 45)
          IN [b \in 1..Len(s[k]) |-> FMax(s[k][b], floor)]])
Lowest(s) == FSeqMin([k \in 1..Len(s) |-> FSeqMin(s[k])])
Sub(s, v) == TLCEval([k \in 1..Len(s) |-> [b \in 1..Len(s[k]) |-> FSub(s[k][b], v)]])
Prepare(ref, deg) ==
  LET r == ToDb(ref) d == ToDb(deg) rc == Cut(r, d) dc == Cut(d, r)
      lo == FMin(Lowest(rc), Lowest(dc))
  IN TLCEval(<<Sub(rc, lo), Sub(dc, lo)>>)
SameSpec(a, b) == /\ Len(a) = Len(b)
                  /\ \A k \in 1..Len(a) : Len(a[k]) = Len(b[k]) /\
                       \A i \in 1..Len(a[k]) : FLe(FAbs(FSub(a[k][i], b[k][i])), "1e-9")
AllNonNeg(s) == \A k \in 1..Len(s) : \A i \in 1..Len(s[k]) : FLe(0, s[k][i])
PrepViolations(r) ==
  LET c == r.in p == Prepare(c.ref, c.deg) IN
  {t \in {"reference"} : ~SameSpec(r.ref, p[1])} \cup
  {t \in {"degraded"} : ~SameSpec(r.deg, p[2])} \cup
  {t \in {"not-symmetric"} : r.swapref # r.deg \/ r.swapdeg # r.ref} \cup
  {t \in {"negative"} : ~(AllNonNeg(r.ref) /\ AllNonNeg(r.deg))} \cup
  {t \in {"smallest-not-zero"} : ~FLe(FAbs(FMin(Lowest(r.ref), Lowest(r.deg))), "1e-12")} \cup
  \* the single steps
  {t \in {"to-db"} : ~SameSpec(r.db, [k \in 1..Len(c.ref) |-> [b \in 1..Len(c.ref[k]) |-> Db(c.ref[k][b])]])} \cup
  {t \in {"minimum"} : ~FEq(r.min, Lowest(c.ref))}

SpectroViolations(r) ==
  CASE r.in.op = "build" -> BuildViolations(r)
    [] r.in.op = "frames" -> FrameViolations(r)
    [] r.in.op = "bank" -> BankViolations(r)
    [] r.in.op = "tones" -> ToneViolations(r)
    [] r.in.op = "prep" -> PrepViolations(r)
==============================================================================
