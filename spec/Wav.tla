--------------------------------- MODULE Wav ---------------------------------
(***************************************************************************)
(* WAV input: what a well-formed 16-bit PCM file means (Encode, from a      *)
(* description of the audio), the header parser as a state machine (Step),  *)
(* and what loading a byte string must yield (Loaded).                      *)
(* Bytes are 0..255; unsigned 32-bit fields are pairs <<hi16, lo16>> where  *)
(* their value matters, and saturate at Huge where only "too big" matters.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, F64

Huge == 1073741824
Min2(a, b) == IF a < b THEN a ELSE b

\* -------------------------------------------------------------- byte level
Le16(v) == <<v % 256, (v \div 256) % 256>>
LeS16(v) == Le16(IF v < 0 THEN v + 65536 ELSE v)
Le32(v) == Le16(v % 65536) \o Le16(v \div 65536)
RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT == <<102, 109, 116, 32>>
FACT == <<102, 97, 99, 116>>
DATA == <<100, 97, 116, 97>>

U16(b, p) == b[p] + 256 * b[p + 1]
S16(b, p) == LET u == U16(b, p) IN IF u >= 32768 THEN u - 65536 ELSE u
U32(b, p) == IF b[p + 3] >= 64 THEN Huge
             ELSE b[p] + 256 * (b[p + 1] + 256 * (b[p + 2] + 256 * b[p + 3]))
Id(b, p) == SubSeq(b, p, p + 3)

\* ------------------------------------------------- the meaning of a WAV file
\* f.tag 1 or 65534; f.ext: NoExt or the format chunk's extension bytes;
\* f.ch; f.rate = <<hi, lo>>; f.chunks: sequence of <<id, payload>>;
\* f.smp: interleaved samples; f.tail: bytes after the data chunk.
NoExt == <<-1>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Chunk4(id, payload) == id \o Le32(Len(payload)) \o payload
FmtBody(f, bits) ==
  Le16(f.tag) \o Le16(f.ch) \o Le16(f.rate[2]) \o Le16(f.rate[1]) \o
  Le32(2 * f.ch * 100) \o Le16(2 * f.ch) \o Le16(bits) \o
  (IF f.ext = NoExt THEN <<>> ELSE Le16(Len(f.ext)) \o f.ext)
SampleBytes(smp) == Flat([i \in 1..Len(smp) |-> LeS16(smp[i])])
EncodeHdr(f) ==
  RIFF \o Le32(36 + 2 * Len(f.smp)) \o WAVE \o Chunk4(FMT, FmtBody(f, 16)) \o
  (IF f.tag = 65534 THEN Chunk4(FACT, Le32(Len(f.smp))) ELSE <<>>) \o
  Flat([i \in 1..Len(f.chunks) |-> Chunk4(f.chunks[i][1], f.chunks[i][2])])
Encode(f) == EncodeHdr(f) \o Chunk4(DATA, SampleBytes(f.smp)) \o f.tail

\* ------------------------------------------------------------- the parser
\* One step per chunk or header field group.  p is the next unread byte.
Start == [ph |-> "header", p |-> 1, ids |-> FALSE, tag |-> 0, ch |-> 0,
          rate |-> <<0, 0>>, total |-> 0, even |-> TRUE]
Fail(s) == [s EXCEPT !.ph = "fail"]
Terminal(s) == s.ph \in {"fail", "ok"}

StepHeader(b, s) ==
  IF Len(b) < 36 THEN Fail(s)
  ELSE LET fsize == U32(b, 17) IN
       IF fsize < 16 THEN Fail(s)
       ELSE [s EXCEPT !.p = 37,
                      !.ph = IF fsize = 16 THEN "fmt" ELSE "ext",
                      !.ids = /\ Id(b, 1) = RIFF /\ Id(b, 9) = WAVE /\ Id(b, 13) = FMT,
                      !.tag = U16(b, 21), !.ch = U16(b, 23),
                      !.rate = <<U16(b, 27), U16(b, 25)>>]
StepExt(b, s) ==
  IF Len(b) < s.p + 1 THEN Fail(s)
  ELSE LET n == S16(b, s.p) IN
       IF n < 0 \/ s.p + 2 + n > Len(b) + 1 THEN Fail(s)
       ELSE [s EXCEPT !.p = s.p + 2 + n, !.ph = "fmt"]
StepFmt(b, s) ==      \* the extensible format is followed by a fact chunk
  LET next == [s EXCEPT !.ph = "bits"] IN
  IF s.tag # 65534 THEN next
  ELSE IF Len(b) < s.p + 7 THEN Fail(s)
  ELSE LET n == U32(b, s.p + 4) IN
       IF Id(b, s.p) # FACT \/ n = Huge THEN Fail(s)
       ELSE IF s.p + 8 + n > Len(b) + 1 THEN Fail(s)
       ELSE [next EXCEPT !.p = s.p + 8 + n]
StepBits(b, s) ==
  IF U16(b, 35) # 16 THEN Fail(s) ELSE [s EXCEPT !.ph = "chunk"]
StepChunk(b, s) ==
  IF Len(b) < s.p + 7 THEN Fail(s)
  ELSE LET n == U32(b, s.p + 4) IN
       IF Id(b, s.p) = DATA
       THEN IF /\ s.ids /\ s.ch > 0 /\ n > 1 /\ n % 2 = 0 /\ s.tag \in {1, 65534}
            THEN [s EXCEPT !.p = s.p + 8, !.total = n \div 2, !.ph = "ok"]
            ELSE Fail(s)
       ELSE IF n = Huge \/ s.p + 8 + n > Len(b) + 1 THEN Fail(s)
       ELSE [s EXCEPT !.p = s.p + 8 + n]
Step(b, s) ==
  CASE s.ph = "header" -> StepHeader(b, s)
    [] s.ph = "ext" -> StepExt(b, s)
    [] s.ph = "fmt" -> StepFmt(b, s)
    [] s.ph = "bits" -> StepBits(b, s)
    [] s.ph = "chunk" -> StepChunk(b, s)
RECURSIVE Run(_, _)
Run(b, s) == IF Terminal(s) THEN s ELSE Run(b, Step(b, s))
Parse(b) == Run(b, Start)

\* ------------------------------------------------- what loading must yield
\* Whole samples present in the data chunk (it may be truncated).
Present(b, s) == Min2(s.total, (Len(b) + 1 - s.p) \div 2)
HalfSample(b, s) == /\ Present(b, s) < s.total /\ (Len(b) + 1 - s.p) % 2 = 1
Sample(b, s, i) == IF i < Present(b, s) THEN S16(b, s.p + 2 * i) ELSE 0
Empty(b) == LET s == Parse(b) IN s.ph = "fail" \/ Present(b, s) = 0
Frames(s) == s.total \div s.ch
RECURSIVE FrameSum(_, _, _, _)
FrameSum(b, s, k, c) ==
  IF c = s.ch THEN 0 ELSE Sample(b, s, k * s.ch + c) + FrameSum(b, s, k, c + 1)
Mono(b, s, k) == FDiv(FrameSum(b, s, k, 0), 32768 * s.ch)
\* The frame holding a cut sample: its present byte may count or not.
Uncertain(b, s, k) ==
  HalfSample(b, s) /\ Present(b, s) \div s.ch = k

LoadBad(b, o, name) ==
  IF Empty(b) THEN {name \o "-must-be-empty" : x \in {1} \cap (IF o.rows * o.cols = 0 THEN {} ELSE {1})}
  ELSE LET s == Parse(b) IN
       IF o.rows # Frames(s) \/ (o.rows > 0 /\ o.cols # 1) THEN {name \o "-frame-count"}
       ELSE IF o.rows = 0 THEN {}
       ELSE (IF o.rate # s.rate THEN {name \o "-sample-rate"} ELSE {}) \cup
            (IF \A k \in 0..(Frames(s) - 1) :
                  Uncertain(b, s, k) \/ FNear(o.data[k + 1], Mono(b, s, k), "1e-12")
             THEN {} ELSE {name \o "-sample-value"})

\* The reader used directly: a sequence of reads of any sizes.
RECURSIVE ReadsBad(_, _, _, _)
ReadsBad(b, s, rs, done) ==
  IF rs = <<>> THEN {}
  ELSE LET r == Head(rs)
           want == Min2(r.n, Present(b, s) - done)
       IN (IF r.k # want THEN {"read-count"} ELSE
           IF \E i \in 1..r.k : r.v[i] # Sample(b, s, done + i - 1) THEN {"read-value"} ELSE {}) \cup
          (IF r.over THEN {"read-overrun"} ELSE {}) \cup
          (IF r.k # want THEN {} ELSE ReadsBad(b, s, Tail(rs), done + r.k))

RateVal(r) == FAdd(FMul(r[1], 65536), r[2])
ReaderBad(b, r) ==
  LET s == Parse(b) IN
  IF r.valid # (s.ph = "ok") THEN {"header-validity"}
  ELSE IF ~r.valid THEN {}
  ELSE (IF r.total # s.total THEN {"total-samples"} ELSE {}) \cup
       (IF r.channels # s.ch THEN {"channel-count"} ELSE {}) \cup
       (IF r.rrate # s.rate THEN {"reader-sample-rate"} ELSE {}) \cup
       (IF /\ s.rate[1] < 32768 /\ s.rate # <<0, 0>>
           /\ ~FNear(r.rdur, FDiv(s.total \div s.ch, RateVal(s.rate)), "1e-9")
        THEN {"reader-duration"} ELSE {}) \cup
       ReadsBad(b, s, r.reads, 0)

WavViolations(r) ==
  LET b == r.in.bytes IN
  LoadBad(b, r.stream, "stream") \cup LoadBad(b, r.file, "file") \cup ReaderBad(b, r)
==============================================================================
