-------------------------------- MODULE CliMC --------------------------------
(* Every way the files may be named, missing or present, in both modes: the   *)
(* parser's decision; and every short sequence of option settings.            *)
EXTENDS Cli, Json
CONSTANTS MaxExtra
VARIABLES args, present, fixed
vars == <<args, present, fixed>>
A(k, v) == [opt |-> k, val |-> v]
File(k) == {<<>>} \cup {<<A(k, "@/no_" \o k)>>, <<A(k, "@/" \o k)>>}
Present0 == {"@/ref", "@/deg", "@/batch", "@/model"}
Init == /\ fixed \in [ref : File("ref"), deg : File("deg"), batch : File("batch"), model : File("model"), speech : BOOLEAN]
        /\ args = (IF fixed.speech THEN <<A("speech", TRUE)>> ELSE <<>>) \o fixed.ref \o fixed.model \o fixed.batch \o fixed.deg
        /\ present \in {Present0 \cup d : d \in SUBSET {Audio, Lattice}}
Extra == {A("radius", 0), A("radius", 7), A("csv", "@/c"), A("debug", "@/d"), A("speech", FALSE), A("lattice", FALSE), A("unscaled", TRUE),
          A("noalign", TRUE), A("norealign", TRUE), A("verbose", TRUE), A("ref", "@/ref"), A("batch", ""), A("model", "@/no_model")}
Given == Len(fixed.ref) + Len(fixed.deg) + Len(fixed.batch) + Len(fixed.model) + (IF fixed.speech THEN 1 ELSE 0)
Next == /\ Len(args) < Given + MaxExtra /\ UNCHANGED <<present, fixed>>
        /\ \E e \in Extra : args' = Append(args, e)
Spec == Init /\ [][Next]_vars
O == Opts(args)
\* creating files never turns acceptance into rejection; and everything existing is accepted
ExistingHelps == Accepts(O, present) => Accepts(O, present \cup {"@/no_ref", "@/no_deg", "@/no_batch", "@/no_model", Audio, Lattice})
BatchWins == O.batch # "" => Required(O) \cap {O.ref, O.deg} = {} \/ O.ref \in {O.batch, O.model} \/ O.deg \in {O.batch, O.model}
PlainDefaults == args = <<>> => O = Defaults /\ ~Accepts(O, present)
LastWins == \A k \in DOMAIN O : LET I == {i \in 1..Len(args) : args[i].opt = k}
                                IN I = {} \/ O[k] = args[CHOOSE i \in I : \A j \in I : j <= i].val
Case == PrintT(ToJson([args |-> args, present |-> present]))
==============================================================================
