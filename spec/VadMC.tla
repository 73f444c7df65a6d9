-------------------------------- MODULE VadMC --------------------------------
(* Exhaustive over all loud/quiet histories: the voice activity detector     *)
(* against its closed definition, and block selection.                       *)
EXTENDS Segmentation, Json
CONSTANTS MaxFrames, P
VARIABLES loud, s
vars == <<loud, s>>
Init == loud = <<>> /\ s = VadStart
Frame1 == Len(loud) < MaxFrames /\ \E b \in BOOLEAN : loud' = Append(loud, b) /\ s' = VadStep(s, b)
Spec == Init /\ [][Frame1]_vars
Closed == /\ Len(s.out) = Len(loud)
          /\ \A i \in 1..Len(loud) :
               s.out[i] = (i <= 2 \/ loud[i] \/ loud[i - 1] \/ loud[i - 2])
          /\ s.out = Voiced(loud)
\* a decision once taken never changes
Stable == [][\A i \in 1..Len(s.out) : s'.out[i] = s.out[i]]_vars
\* a block is kept iff it has a voiced frame; kept blocks in order
BlocksOk == LET n == Len(loud) + FirstBlock(P) kb == KeptBlocks(s.out, n, P) IN
  /\ \A i, j \in 1..Len(kb) : i < j => kb[i] < kb[j]
  /\ \A b \in 1..Blocks(n, P) :
       (b \in {kb[i] : i \in 1..Len(kb)}) = (\E k \in 1..P : s.out[(b - 1) * P + k])
Case == Len(loud) = MaxFrames => PrintT(ToJson([loud |-> loud]))
==============================================================================
