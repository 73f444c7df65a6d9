-------------------------------- MODULE Align --------------------------------
(***************************************************************************)
(* Global alignment of two signals, truncation of an aligned pair, and the  *)
(* transforms and cross-correlation underneath.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, F64

-----------------------------------------------------------------------------
(* Discrete Fourier transform of x, zero-padded to M points.                *)
RECURSIVE NextPow2(_, _)
NextPow2(n, p) == IF p >= n THEN p ELSE NextPow2(n, 2 * p)
FftSize(n) == NextPow2(n, 32)
Pi == "3.141592653589793"
CosTable(M) == TLCEval([j \in 0..(M - 1) |-> FCos(FDiv(FMul(FMul(2, Pi), j), M))])
SinTable(M) == TLCEval([j \in 0..(M - 1) |-> FSin(FDiv(FMul(FMul(2, Pi), j), M))])
DftRe(x, k, M, tab) == FDot(x, [j \in 1..Len(x) |-> tab[((j - 1) * k) % M]])
DftIm(x, k, M, tab) == FSub(0, FDot(x, [j \in 1..Len(x) |-> tab[((j - 1) * k) % M]]))

\* transforms are computed in single precision
Loose(x) == FMul("2e-6", FAdd(FSqrt(FMul(Len(x), FSumSq(x))), "1e-30"))
Zeros(n) == [i \in 1..n |-> F(0)]
Pad(x, n) == IF Len(x) >= n THEN x ELSE x \o Zeros(n - Len(x))
CloseSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : FLe(FAbs(FSub(s[i], t[i])), tol)
FftViolations(r) ==
  LET c == r.in x == c.x M == FftSize(c.points) tol == Loose(x)
      ct == CosTable(M) st == SinTable(M)
      near(a, b) == FLe(FAbs(FSub(a, b)), tol)
  IN IF Len(r.re) # M \/ Len(r.im) # M THEN {"transform-length"}
     ELSE
     {t \in {"forward"} : \E q \in 1..Len(c.bins) : LET k == c.bins[q] % M IN
        ~(near(r.re[k + 1], DftRe(x, k, M, ct)) /\ near(r.im[k + 1], DftIm(x, k, M, st)))} \cup
     {t \in {"mirror"} : \E k \in 1..(M - 1) :
        ~(FEq(r.re[k + 1], r.re[M - k + 1]) /\ FEq(r.im[k + 1], FSub(0, r.im[M - k + 1])))} \cup
     {t \in {"round-trip"} : ~CloseSeq(r.inv, Pad(x, c.points), tol)} \cup
     {t \in {"real-round-trip"} : ~CloseSeq([i \in 1..Len(r.sym) |-> r.sym[i][1]], Pad(x, c.points), tol)} \cup
     {t \in {"imaginary-part"} : \E i \in 1..Len(r.invim) : ~near(r.invim[i], 0)} \cup
     {t \in {"input-changed"} : ~r.kept}

-----------------------------------------------------------------------------
(* Cross-correlation.  Corr(a, b, L) is the correlation of a with b moved   *)
(* L samples later; the lag is the L that maximises it.                     *)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Corr(a, b, L) ==
  LET lo == Max(1, 1 - L) hi == Min(Len(b), Len(a) - L)
  IN IF hi < lo THEN F(0) ELSE FDot(SubSeq(a, lo + L, hi + L), SubSeq(b, lo, hi))
Reach(a, b) == Max(Len(a), Len(b)) - 1
Corrs(a, b) == LET m == Reach(a, b) IN TLCEval([L \in (-m)..m |-> Corr(a, b, L)])
Norm(a, b) == FSqrt(FMul(FSumSq(a), FSumSq(b)))
SeqOf(f, lo, hi) == [i \in 1..(hi - lo + 1) |-> f[lo + i - 1]]
\* lags that maximise up to single-precision rounding
BestLags(a, b) ==
  LET m == Reach(a, b) f == Corrs(a, b) top == FSeqMax(SeqOf(f, -m, m))
      floor == FSub(top, FMul("3e-6", Norm(a, b)))
  IN TLCEval({L \in (-m)..m : FLe(floor, f[L])})
XcorrViolations(r) ==
  LET c == r.in IN
  {t \in {"lag"} : r.lag \notin BestLags(c.a, c.b)} \cup
  {t \in {"reverse-lag"} : r.back \notin BestLags(c.b, c.a)}

-----------------------------------------------------------------------------
(* The envelope whose correlation decides the alignment: twice the distance *)
(* from the mean, less the Nyquist component, plus the mean.                *)
Envelope(x) ==
  LET n == Len(x) m == FMean(x) M == FftSize(n)
      c == TLCEval([i \in 1..n |-> FSub(x[i], m)])
      ny == FDiv(FDot(c, [i \in 1..n |-> IF i % 2 = 1 THEN 1 ELSE -1]), M)
      w == IF n = M THEN ny ELSE FMul(2, ny)
  IN TLCEval([i \in 1..n |-> FAdd(FAbs(FSub(FMul(2, c[i]), IF i % 2 = 1 THEN w ELSE FSub(0, w))), m)])
EnvViolations(r) ==
  LET e == Envelope(r.in.x) IN
  {t \in {"envelope"} : ~CloseSeq([i \in 1..Len(r.env) |-> r.env[i][1]], e, Loose(r.in.x))}

\* Lags the alignment may find.
FoundLags(ref, deg) == BestLags(Envelope(ref), Envelope(deg))
\* A lag is used if it is not zero, is at most half the reference and leaves
\* something of the degraded signal.
Usable(L, ref, deg) == L # 0 /\ 2 * L <= Len(ref) /\ -2 * L <= Len(ref) /\ -L < Len(deg)
Shifted(deg, L) == IF L >= 0 THEN Zeros(L) \o deg ELSE SubSeq(deg, 1 - L, Len(deg))
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : FEq(s[i], t[i])
SignalIs(s, x, rate) == s.rate = rate /\ s.cols = 1 /\ SameSeq(s.x, x)
LagIs(lag, L, rate) == lag.n = L /\ FNear(lag.s, FDiv(L, rate), "1e-12")

GlobalViolations(r) ==
  LET c == r.in found == FoundLags(c.ref, c.deg) L == r.lag.n IN
  {t \in {"inputs-changed"} : ~r.kept} \cup
  {t \in {"lag-seconds"} : ~LagIs(r.lag, L, c.rate)} \cup
  (IF L = 0 THEN {t \in {"lag-ignored"} : \A q \in found : Usable(q, c.ref, c.deg)}
   ELSE {t \in {"wrong-lag"} : ~(L \in found /\ Usable(L, c.ref, c.deg))}) \cup
  {t \in {"aligned-signal"} : ~SignalIs(r.out, Shifted(c.deg, IF L = 0 THEN 0 ELSE L), c.rate)} \cup
  \* c.delay (present when the case is a delayed copy): recovered exactly
  (IF "delay" \in DOMAIN c THEN {t \in {"delay-not-recovered"} : L # -c.delay} ELSE {})

TruncViolations(r) ==
  LET c == r.in n == Len(c.ref) L == r.lag.n found == FoundLags(c.ref, c.deg) IN
  {t \in {"inputs-changed"} : ~r.kept} \cup
  {t \in {"lag-seconds"} : ~LagIs(r.lag, L, c.rate)} \cup
  (IF L = 0 THEN {t \in {"lag-ignored"} : \A q \in found : Usable(q, c.ref, c.deg)}
   ELSE {t \in {"wrong-lag"} : ~(L \in found /\ Usable(L, c.ref, c.deg))}) \cup
  {t \in {"lengths-differ"} : Len(r.r.x) # Len(r.d.x)} \cup
  \* the pieces start where the later one of the two starts, and end with the
  \* shorter; where the aligned degraded signal does not outlast the reference
  \* the zeros the alignment put in front may stay
  (LET moved == Shifted(c.deg, IF L = 0 THEN 0 ELSE L)
       end == Min(n, Len(moved))
       piece(off) == SignalIs(r.r, SubSeq(c.ref, off + 1, end), c.rate) /\ SignalIs(r.d, SubSeq(moved, off + 1, end), c.rate)
       offs == {Max(L, 0)} \cup (IF Len(moved) > n THEN {} ELSE {0})
   IN {t \in {"pieces"} : \A off \in offs : ~piece(off)})

(* Long signals, given sparsely: c.at lists the samples of the reference    *)
(* that are not zero, which the degraded signal has c.delay later.          *)
Moved(at, by, len) == SelectSeq([i \in 1..Len(at) |-> <<at[i][1] + by, at[i][2]>>], LAMBDA e : e[1] >= 0 /\ e[1] < len)
SparseIs(s, at, len, rate) ==
  /\ s.rate = rate /\ s.cols = 1 /\ s.n = len /\ Len(s.at) = Len(at)
  /\ \A i \in 1..Len(at) : s.at[i][1] = at[i][1] /\ FEq(s.at[i][2], at[i][2])
FarViolations(r) ==
  LET c == r.in L == r.lag.n
      used == c.delay # 0 /\ 2 * c.delay <= c.n /\ -2 * c.delay <= c.n /\ c.delay < c.m
      want == IF used THEN -c.delay ELSE 0
      len == c.m + want
      end == Min(c.n, len)
      piece(off) == /\ SparseIs(r.r, Moved(c.at, -off, end - off), end - off, c.rate)
                    /\ SparseIs(r.d, Moved(c.at, c.delay + want - off, end - off), end - off, c.rate)
      offs == {Max(want, 0)} \cup (IF len > c.n THEN {} ELSE {0})
  IN {t \in {"inputs-changed"} : ~r.kept} \cup
     {t \in {"lag-seconds"} : ~LagIs(r.lag, L, c.rate)} \cup
     (IF L # want THEN {IF used THEN "delay-not-recovered" ELSE "wrong-lag"}
      ELSE IF c.how = "global"
      THEN {t \in {"aligned-signal"} : ~SparseIs(r.out, Moved(c.at, c.delay + want, len), len, c.rate)}
      ELSE {t \in {"pieces"} : \A off \in offs : ~piece(off)})

AlignViolations(r) ==
  CASE r.in.op = "fft" -> FftViolations(r)
    [] r.in.op = "xcorr" -> XcorrViolations(r)
    [] r.in.op = "env" -> EnvViolations(r)
    [] r.in.op = "global" -> GlobalViolations(r)
    [] r.in.op = "far" -> FarViolations(r)
    [] r.in.op = "trunc" -> TruncViolations(r)
==============================================================================
