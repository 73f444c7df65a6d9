----------------------------- MODULE Segmentation -----------------------------
(***************************************************************************)
(* Choosing the reference patches: back-to-back patches in audio mode,      *)
(* blocks with voice activity in speech mode.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

-----------------------------------------------------------------------------
(* Audio mode: n columns, patches of p columns.                             *)
Fits(n, p) == n >= p + p \div 2
\* The (1-based) column in the middle of which the first patch starts, then
\* one patch further each time, as long as a whole patch is left.
FirstMark(p) == p \div 2
RECURSIVE Marks(_, _, _)
Marks(n, p, m) == IF m < n - p THEN <<m>> \o Marks(n, p, m + p) ELSE <<>>
AudioStarts(n, p) ==
  LET ms == Marks(n, p, FirstMark(p))
  IN IF ms = <<>> THEN <<FirstMark(p) - 1>> ELSE [i \in 1..Len(ms) |-> ms[i] - 1]

AudioViolations(r) ==
  LET c == r.in n == c.n p == c.p e == AudioStarts(n, p) IN
  IF ~Fits(n, p) THEN {t \in {"too-short-accepted"} : r.code # "INVALID_ARGUMENT"}
  ELSE IF r.code # "OK" THEN {"fitting-rejected"}
  ELSE {t \in {"starts"} : r.starts # e} \cup
       {t \in {"contents"} : ~(r.patches = [i \in 1..Len(r.starts) |->
           [b \in 1..2 |-> [k \in 1..p |-> 1000000 * b + r.starts[i] + k]]])}

-----------------------------------------------------------------------------
(* Voice activity: one step per frame.  The detector remembers how many     *)
(* frames it has seen and whether each of the last two was loud.            *)
VadStart == [seen |-> 0, prev |-> <<FALSE, FALSE>>, out |-> <<>>]
VadStep(s, loud) ==
  [seen |-> s.seen + 1,
   prev |-> <<s.prev[2], loud>>,
   out |-> Append(s.out, s.seen < 2 \/ loud \/ s.prev[1] \/ s.prev[2])]
RECURSIVE VadRun(_, _, _)
VadRun(s, loud, i) == IF i > Len(loud) THEN s ELSE VadRun(VadStep(s, loud[i]), loud, i + 1)
Voiced(loud) == VadRun(VadStart, loud, 1).out

\* 16-bit level of a sample of the peak-normalised signal
Level(x) == FTrunc(FMax(-32768, FMin(32767, FMul(x, 32768))))
Rms(f) == FSqrt(FDiv(FSumSq(f), Len(f)))
Loud(f) == FLe(5000, Rms(f))
Frame(lv, first, hop, k) == SubSeq(lv, first + (k - 1) * hop + 1, first + k * hop)

(* Speech mode: patches of p columns; the first block starts p/2 - 1 columns *)
(* in; the voice activity of block i is that of frames (i-1)p+1 .. ip of the *)
(* signal from sample p/2 - 1 on.                                            *)
FirstBlock(p) == p \div 2 - 1
Blocks(n, p) == IF n < FirstBlock(p) THEN 0 ELSE (n - FirstBlock(p)) \div p
KeptBlocks(voiced, n, p) ==
  SelectSeq([i \in 1..Blocks(n, p) |-> i],
            LAMBDA i : \E k \in ((i - 1) * p + 1)..(i * p) : voiced[k])
SpeechStarts(voiced, n, p) ==
  LET kb == KeptBlocks(voiced, n, p) IN [i \in 1..Len(kb) |-> FirstBlock(p) + (kb[i] - 1) * p]

\* The signal x (numbers), hop samples per frame.
SpeechViolations(r) ==
  LET c == r.in p == c.p n == c.n hop == c.win \div 4 peak == FSeqMax(c.x)
      lv == TLCEval([i \in 1..Len(c.x) |-> Level(FDiv(c.x[i], peak))])
      loud == TLCEval([k \in 1..(Blocks(n, p) * p) |-> Loud(Frame(lv, FirstBlock(p), hop, k))])
      voiced == TLCEval(Voiced(loud))
  IN IF Blocks(n, p) = 0 THEN {t \in {"too-short-accepted"} : r.code = "OK"}
     ELSE IF r.code # "OK" THEN {"fitting-rejected"}
     ELSE {t \in {"blocks"} : r.starts # SpeechStarts(voiced, n, p)}

\* The detector itself: chunks of samples, one at a time.
VadViolations(r) ==
  LET c == r.in
      loud == TLCEval([k \in 1..Len(c.chunks) |-> Loud(c.chunks[k])])
      voiced == TLCEval(Voiced(loud)) IN
  {t \in {"voiced"} : r.voiced # [k \in 1..Len(loud) |-> IF voiced[k] THEN 1 ELSE 0]} \cup
  {t \in {"rms"} : \E k \in 1..Len(loud) : ~FNear(r.rms[k], Rms(c.chunks[k]), "1e-9")}

\* Voice activity of a stretch of a signal (not normalised).
ActivityViolations(r) ==
  LET c == r.in
      lv == TLCEval([i \in 1..Len(c.x) |-> Level(c.x[i])])
      loud == TLCEval([k \in 1..(c.total \div c.len) |-> Loud(Frame(lv, c.start, c.len, k))])
      voiced == TLCEval(Voiced(loud))
  IN {t \in {"activity"} : r.voiced # [k \in 1..Len(loud) |-> IF voiced[k] THEN 1 ELSE 0]}

SegViolations(r) ==
  CASE r.in.op = "audio" -> AudioViolations(r)
    [] r.in.op = "speech" -> SpeechViolations(r)
    [] r.in.op = "vad" -> VadViolations(r)
    [] r.in.op = "activity" -> ActivityViolations(r)
==============================================================================
