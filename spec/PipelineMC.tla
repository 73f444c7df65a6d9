------------------------------ MODULE PipelineMC ------------------------------
(* A comparison under every choice of options, stage by stage; any stage     *)
(* that can fail does or does not.                                           *)
EXTENDS Pipeline, Json
CONSTANT Radii
VARIABLES opt, k, have, failed
vars == <<opt, k, have, failed>>
Opts == [speech : BOOLEAN, unscaled : BOOLEAN, lattice : BOOLEAN, noalign : BOOLEAN, norealign : BOOLEAN, radius : Radii]
P == Plan(opt)
Init == opt \in Opts /\ k = 0 /\ have = Fresh /\ failed = ""
Next == failed = "" /\ k < Len(P) /\ UNCHANGED opt /\
  \/ /\ k' = k + 1 /\ have' = After(have, P[k + 1]) /\ UNCHANGED failed
  \/ Fallible(P[k + 1]) /\ failed' = P[k + 1].do /\ UNCHANGED <<k, have>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == failed = "" /\ k = Len(P)
NothingMissing == (failed = "" /\ k < Len(P)) => Needs(P[k + 1]) \subseteq DOMAIN have
ReferenceUntouched == have.ref = <<"ref">>
\* what is analysed is the degraded signal as matched in level, aligned unless disabled
LevelledBeforeAnalysis == "Sdeg" \in DOMAIN have =>
  SubSeq(have.Sdeg, 1, IF opt.noalign THEN 2 ELSE 3) = IF opt.noalign THEN <<"deg", "levelled">> ELSE <<"deg", "aligned", "levelled">>
BothPrepared == "patches" \in DOMAIN have => have.Sref[Len(have.Sref)] = "prepared" /\ have.Sdeg[Len(have.Sdeg)] = "prepared"
ScoreOnlyAtEnd == ("mos" \in DOMAIN have /\ have.mos[Len(have.mos)] = "bounded") <=> Finished
FineUnlessDisabled == Finished => have.features[1] = IF opt.norealign THEN "coarse" ELSE "fine"
LagOnlyIfAligned == have.lag = <<"measured">> => ~opt.noalign
LatticeOnlyInSpeech == \A i \in 1..Len(P) : P[i].do = "map" => (P[i].by = "lattice" => opt.speech) /\ (P[i].by = "svr" <=> ~opt.speech)
Ends == <>(Finished \/ failed # "")
NoWayBack == [][failed # "" => UNCHANGED vars]_vars
Case == (Finished \/ failed # "") => PrintT(ToJson([opt |-> opt, plan |-> P, failed |-> failed, at |-> k]))
==============================================================================
