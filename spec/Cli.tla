--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line.  Arguments set options one after another (the last one *)
(* wins); then the files that are required must exist.                       *)
(***************************************************************************)
EXTENDS Batch
Defaults == [ref |-> "", deg |-> "", batch |-> "", model |-> "", csv |-> "", debug |-> "", verbose |-> FALSE, speech |-> FALSE,
             unscaled |-> FALSE, radius |-> 60, lattice |-> TRUE, noalign |-> FALSE, norealign |-> FALSE]
Option == [ref |-> "reference_file", deg |-> "degraded_file", batch |-> "batch_input_csv", model |-> "similarity_to_quality_model",
           csv |-> "results_csv", debug |-> "output_debug", verbose |-> "verbose", speech |-> "use_speech_mode",
           unscaled |-> "use_unscaled_speech_mos_mapping", radius |-> "search_window_radius", lattice |-> "use_lattice_model",
           noalign |-> "disable_global_alignment", norealign |-> "disable_realignment"]
RECURSIVE Apply(_, _, _)
Apply(args, i, o) == IF i > Len(args) THEN o ELSE Apply(args, i + 1, [o EXCEPT ![args[i].opt] = args[i].val])
Opts(args) == Apply(args, 1, Defaults)

Audio == "@/cwd/model/libsvm_nu_svr_model.txt"
Lattice == "@/cwd/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite"
DefaultModel(o) == IF o.speech THEN Lattice ELSE Audio
Model(o) == IF o.model = "" THEN DefaultModel(o) ELSE o.model
\* the files that must exist
Required(o) == (IF o.batch # "" THEN {o.batch} ELSE {o.ref, o.deg})
               \cup (IF o.model # "" THEN (IF o.speech THEN {} ELSE {o.model}) ELSE {DefaultModel(o)})
Accepts(o, present) == Required(o) \subseteq present
Code(o, present) == IF Accepts(o, present) THEN "OK" ELSE "INVALID_ARGUMENT"
ParseClauses(args, present, text, r) ==
  LET o == Opts(args)
  IN IF r.code # Code(o, present) THEN {"parse-status"}
     ELSE IF r.code # "OK" THEN {}
     ELSE (IF \A k \in {"csv", "debug", "batch", "verbose", "speech", "unscaled", "radius", "lattice", "noalign", "norealign"} :
              r.got[k] = o[k] THEN {} ELSE {"option-value"})
          \cup (IF o.batch # "" \/ (r.got.ref = o.ref /\ r.got.deg = o.deg) THEN {} ELSE {"pair-paths"})
          \cup (IF r.got.model = Model(o) THEN {} ELSE {"model-path"})
          \cup (IF o.batch # "" THEN (IF PairsOk(text, r.pairs) THEN {} ELSE {"batch-pairs"})
                ELSE IF r.pairs = <<<<o.ref, o.deg>>>> THEN {} ELSE {"single-pair"})
==============================================================================
