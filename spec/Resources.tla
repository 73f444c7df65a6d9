------------------------------- MODULE Resources -------------------------------
(***************************************************************************)
(* What a ViSQOL process holds.                                             *)
(*                                                                          *)
(* Objects - comparison managers, the embedding API, support-vector models, *)
(* mappers - own resources; operations acquire resources one at a time, may *)
(* fail between any two acquisitions, give up what was only needed for the  *)
(* operation, and may leave their object owning something new in place of   *)
(* what it owned before.  The guarantee: between operations the process     *)
(* holds exactly what the live objects own, and what an object owns is a    *)
(* function of its state alone - so no history, however often repeated,     *)
(* makes the process hold more.                                             *)
(*                                                                          *)
(* The second part bounds what one operation may need while it runs.        *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, FiniteSets, TLC

Kinds == {"manager", "api", "svr", "mapper", "lattice"}
(* State of an object: "none" (not alive), "blank" (nothing loaded), or what *)
(* its last successful initialisation gave it.                              *)
Owns(x) ==
  CASE x \in {"none"} -> {}
    [] x = "blank" -> {"object"}
    [] x = "loaded" -> {"object", "model"}
    [] x = "trained" -> {"object", "model", "observations"}
    [] x = "speech" -> {"object", "stages"}
    [] x = "audio" -> {"object", "stages", "model"}
    [] x = "lattice" -> {"object", "stages", "interpreter", "model"}
(* An operation: what it acquires in order, which of that it gives up again  *)
(* as soon as the next thing is acquired (file handles), what the object     *)
(* ends up as.                                                              *)
Compare == <<"signal", "signal", "aligned", "spectrogram", "spectrogram", "patches", "table", "result">>
FromFiles == <<"handle", "signal", "handle", "signal", "aligned", "spectrogram", "spectrogram", "patches", "table", "result">>
Steps(f, to) ==
  CASE f = "init" -> IF to = "speech" THEN <<"object", "stages">> ELSE IF to = "audio" THEN <<"object", "stages", "handle", "model">>
                     ELSE <<"object", "stages", "handle", "model", "interpreter">>
    [] f = "load" -> <<"object", "handle", "model">>
    [] f = "train" -> <<"object", "observations", "model">>
    [] f = "run" -> FromFiles
    [] f = "measure" -> Compare
    [] f = "ask" -> <<"node">>
    [] f = "drop" -> <<>>
Short(r) == r = "handle"

(* Lassos: a history leads to a state, a second one leads from there back to  *)
(* it (or, as every operation is idempotent on states, repeats at least from *)
(* its second time on).  held[i] is what was held after the i-th repetition, *)
(* as <<heap blocks, heap bytes, open files>>.  Caches may fill, so a growth *)
(* counts if it goes on every time.                                          *)
(* `unparsable` is how many existing but ill-formed support-vector models each *)
(* repetition tried to load: libsvm leaves each of them open (two blocks, one  *)
(* open file), a known finding; anything beyond that is not.                   *)
GrowsOn(h, k, allowed) == Len(h) > 3 /\ \A i \in 2..(Len(h) - 1) : h[i + 1][k] > h[i][k] + allowed
HeldClauses(h, unparsable) ==
  (IF GrowsOn(h, 1, 2 * unparsable) \/ (unparsable = 0 /\ GrowsOn(h, 2, 0)) THEN {"memory-grows-with-history"} ELSE {})
  \cup (IF GrowsOn(h, 3, unparsable) THEN {"open-files-grow-with-history"} ELSE {})
  \cup (IF unparsable > 0 /\ GrowsOn(h, 3, 0) THEN {"unparsable-model-stays-open"} ELSE {})

(***************************************************************************)
(* What one operation needs: at most in proportion to the product of the     *)
(* lengths for comparisons (law "product"), to the length for the other      *)
(* stages (law "length"; the logarithm and the constant parts make for the    *)
(* slack).  Measurements are [n, m, peak (bytes), cpu (milliseconds)].        *)
(***************************************************************************)
Times(a, b, law) == IF law = "product" THEN FDiv(FMul(b.n, b.m), FMul(a.n, a.m))
                    ELSE FMax(FDiv(b.n, a.n), FDiv(b.m, a.m))
Larger(a, b) == a.n <= b.n /\ a.m <= b.m /\ (a.n < b.n \/ a.m < b.m)
NeedsClauses(ms, law) ==
  UNION {(IF FLe(ms[j].peak, FAdd(FMul(FMul(Times(ms[i], ms[j], law), ms[i].peak), "2.5"), 65536)) THEN {} ELSE {"memory-grows-too-fast"})
         \cup (IF FLe(ms[j].cpu, FAdd(FMul(FMul(Times(ms[i], ms[j], law), ms[i].cpu), "2"), 150)) THEN {} ELSE {"time-grows-too-fast"})
         : <<i, j>> \in {p \in (1..Len(ms)) \X (1..Len(ms)) : Larger(ms[p[1]], ms[p[2]])}}
(* A batch of many comparisons needs what its largest one needs, plus the     *)
(* list of pairs.                                                            *)
BatchClauses(a, b) == IF b.peak <= a.peak + 65536 + 2048 * (b.rows - a.rows) THEN {} ELSE {"batch-memory-grows"}
==============================================================================
