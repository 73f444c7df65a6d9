-------------------------------- MODULE WavMC --------------------------------
(* Exhaustive check of the WAV parser over a bounded set of files, and       *)
(* enumeration of those files for replay into the real code.                 *)
EXTENDS Wav, Json, TLC
CONSTANTS Mode,      \* "good": well-formed files; "bad": damaged ones
          Big        \* larger bounds

VARIABLES f, b, s
vars == <<f, b, s>>

Tags == {1, 65534}
Exts == IF Big THEN {NoExt, <<>>, <<7>>, <<1, 2, 3, 4>>, [i \in 1..22 |-> i]}
        ELSE {NoExt, <<>>, <<1, 2, 3>>}
JUNK == <<74, 85, 78, 75>>
ChunkSets ==
  {<<>>, << <<JUNK, <<9, 9>> >> >>, << <<JUNK, <<>> >>, <<FACT, DATA>> >>} \cup
  (IF Big THEN {<< <<FMT, <<1, 0, 1, 0>> >>, <<JUNK, DATA \o Le32(2) \o <<5, 5>> >>, <<RIFF, <<3, 3>> >> >>} ELSE {})
SampleSets(ch) ==
  {[i \in 1..ch |-> i * 1000 - 32768], [i \in 1..(2 * ch) |-> IF i % 2 = 0 THEN 32767 ELSE -(i * 7)]} \cup
  (IF Big THEN {[i \in 1..(3 * ch + 1) |-> 256 * i - 1], [i \in 1..1 |-> -32768]} ELSE {})
Tails == {<<>>, <<17, 34, 51, 68>>} \cup (IF Big THEN {DATA \o Le32(2) \o <<1, 1>>} ELSE {})
Channels == IF Big THEN 1..4 ELSE 1..3
Files == UNION {[tag : Tags, ext : Exts, ch : {c}, rate : {<<0, 48000>>, <<2, 3>>},
                 chunks : ChunkSets, smp : SampleSets(c), tail : Tails] : c \in Channels}

\* Damage: cut the file anywhere, or corrupt one header field.
BadFiles == {x \in Files : /\ x.rate = <<0, 48000>> /\ x.ch \in {1, 2}
                           /\ Len(x.smp) = 2 * x.ch
                           /\ x.tail = IF x.ch = 1 THEN <<>> ELSE <<17, 34, 51, 68>>
                           /\ Len(x.chunks) \in {0, 1} /\ x.ext \in {NoExt, <<>>, <<1, 2, 3>>}}
Put(bb, p, v) == [bb EXCEPT ![p] = v]
DataAt(x) == Len(EncodeHdr(x)) + 1        \* position of the data chunk's id
Damage(x) ==
  LET bb == Encode(x) IN
  {SubSeq(bb, 1, n) : n \in 0..(Len(bb) - 1)} \cup
  {Put(bb, p, v) : p \in {1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16}, v \in {0, 114}} \cup
  {Put(bb, 17, v) : v \in {0, 15, 17, 18, 19, 24}} \cup     \* format chunk size
  {Put(bb, 21, v) : v \in {0, 2, 3, 85}} \cup {Put(bb, 22, v) : v \in {1, 255}} \cup
  {Put(bb, 23, v) : v \in {0, 3, 5}} \cup                     \* channels
  {Put(bb, 35, v) : v \in {0, 8, 12, 15, 17, 20, 23, 24, 32}} \cup            \* bits
  {Put(bb, 37, v) : v \in {1, 255}} \cup {Put(bb, 38, v) : v \in {128, 255}} \cup
  {Put(bb, DataAt(x) + k, 120) : k \in 0..3} \cup
  {Put(bb, DataAt(x) + 4, v) : v \in {0, 1, 2, 3, 5, 100, 101}} \cup
  (IF x.chunks = <<>> THEN {} ELSE
     {Put(bb, DataAt(x) - 10 + 4, v) : v \in {0, 1, 3, 255}} \cup
     {Put(bb, DataAt(x) - 10 + 7, v) : v \in {1, 64, 255}}) \cup
  (IF x.tag = 1 THEN {} ELSE {Put(bb, DataAt(x) - 12, v) : v \in {0, 70}})

Init == /\ f \in (IF Mode = "good" THEN Files ELSE BadFiles)
        /\ b \in (IF Mode = "good" THEN {Encode(f)} ELSE Damage(f))
        /\ s = Start
ReadHeader == s.ph = "header" /\ s' = StepHeader(b, s)
ReadExtension == s.ph = "ext" /\ s' = StepExt(b, s)
ReadFact == s.ph = "fmt" /\ s' = StepFmt(b, s)
CheckBits == s.ph = "bits" /\ s' = StepBits(b, s)
ReadChunk == s.ph = "chunk" /\ s' = StepChunk(b, s)
Next == (ReadHeader \/ ReadExtension \/ ReadFact \/ CheckBits \/ ReadChunk) /\ UNCHANGED <<f, b>>
Spec == Init /\ [][Next]_vars

\* A well-formed file parses to exactly what it was made from.
RoundTrip ==
  (Mode = "good" /\ Terminal(s)) =>
    \/ /\ s.ph = "ok" /\ s.ch = f.ch /\ s.rate = f.rate /\ s.total = Len(f.smp)
       /\ Present(b, s) = Len(f.smp)
       /\ \A i \in 1..Len(f.smp) : Sample(b, s, i - 1) = f.smp[i]
    \/ f.smp = <<>>
\* The parser never points outside the byte string, and always makes progress.
InBounds == /\ s.p \in 1..(Len(b) + 1)
            /\ s.ph = "ok" => /\ s.total > 0 /\ s.ch > 0
                              /\ \A i \in 0..(Present(b, s) - 1) : s.p + 2 * i + 1 <= Len(b)
Progress == [][s'.p > s.p \/ s'.ph # s.ph]_vars
\* Only the data chunk supplies samples: everything before it is header.
DataChunkOnly == s.ph = "ok" => Id(b, s.p - 8) = DATA
Case == Terminal(s) => PrintT(ToJson([bytes |-> b]))
==============================================================================
