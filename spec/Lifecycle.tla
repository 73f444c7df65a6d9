------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life of comparison objects: managers (initialise, compare) and the   *)
(* embedding API (create, measure).                                         *)
(*                                                                          *)
(* State of an object: usable or not, and under which options it was last   *)
(* successfully initialised.  Nothing else: in particular no comparison     *)
(* leaves anything behind.  A comparison's outcome is a function of         *)
(* (usable, options, pair); Outcome says which, up to the score, and        *)
(* Result(options, pair) - one value for all time - is its result.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unusable == [usable |-> FALSE]
Usable(opt) == [usable |-> TRUE, opt |-> opt]

(* A model is needed, and must be loadable, in audio mode (support-vector)   *)
(* and in speech mode with the lattice; kinds: "svr", "lattice", "missing",  *)
(* "junk", as the case says.                                                 *)
ModelOk(opt, kind) == IF opt.speech THEN (~opt.lattice \/ kind = "lattice") ELSE kind = "svr"
InitCode(opt, kind) == IF ModelOk(opt, kind) THEN "OK" ELSE "INVALID_ARGUMENT"
AfterInit(opt, kind) == IF ModelOk(opt, kind) THEN Usable(opt) ELSE Unusable

(* Pairs are "good" (long enough, same rate), or have something wrong: a     *)
(* reference shorter than one analysis window ("short") is an error; with    *)
(* little audio otherwise ("scant") there may or may not be a score.         *)
Unreadable == {"missing", "garbage", "empty", "mismatch"}
RunCodeOk(state, kind, code) ==
  IF ~state.usable THEN code = "ABORTED"
  ELSE IF kind \in Unreadable THEN code = "INVALID_ARGUMENT"
  ELSE IF kind = "short" THEN code \notin {"OK", "ABORTED"}
  ELSE IF kind = "scant" THEN code # "ABORTED"
  ELSE IF state.opt.radius < 0 THEN code = "INVALID_ARGUMENT"
  ELSE code = "OK"
Scored(state, kind) == state.usable /\ kind = "good" /\ state.opt.radius >= 0

(***************************************************************************)
(* The embedding API: what a configuration means.  cfg has the fields that   *)
(* were set; `dflt` says whether the default models exist.                   *)
(***************************************************************************)
Get(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Opts(cfg) == Get(cfg, "options", [x |-> 0])
Speech(cfg) == Get(Opts(cfg), "speech", FALSE)
CreateOk(cfg, kind, dflt) ==
  /\ "rate" \in DOMAIN cfg
  /\ cfg.rate > 0
  /\ (cfg.rate = 48000 \/ Speech(cfg) \/ Get(Opts(cfg), "override", FALSE))
  /\ LET lattice == IF "options" \in DOMAIN cfg THEN Get(cfg.options, "lattice", FALSE) ELSE TRUE
         k == IF "model" \in DOMAIN Opts(cfg) /\ cfg.options.model # "" THEN kind
              ELSE IF ~dflt THEN "missing" ELSE IF Speech(cfg) THEN "lattice" ELSE "svr"
     IN ModelOk([speech |-> Speech(cfg), lattice |-> lattice], k)
CreateCode(cfg, kind, dflt) == IF CreateOk(cfg, kind, dflt) THEN "OK" ELSE "INVALID_ARGUMENT"
Radius(cfg) == LET r == Get(Opts(cfg), "radius", 0) IN IF r = 0 THEN 60 ELSE r
(* The options of the manager behind the API.                                *)
Derived(cfg, audioModel, speechModel) ==
  [model |-> LET m == Get(Opts(cfg), "model", "") IN IF m # "" THEN m ELSE IF Speech(cfg) THEN speechModel ELSE audioModel,
   speech |-> Speech(cfg), unscaled |-> Get(Opts(cfg), "unscaled", FALSE), radius |-> Radius(cfg),
   lattice |-> IF "options" \in DOMAIN cfg THEN Get(cfg.options, "lattice", FALSE) ELSE TRUE,
   noalign |-> FALSE, norealign |-> FALSE]
==============================================================================
