-------------------------------- MODULE LifeMC --------------------------------
(* Every short history of initialisations and comparisons on several        *)
(* objects.  `mem` remembers what each comparison must have returned.        *)
EXTENDS Lifecycle, Json
CONSTANTS Objs, MaxOps, OptIds, PairKinds
VARIABLES st, hist, mem
vars == <<st, hist, mem>>
Opt(k) == CASE k = "audio" -> [id |-> k, speech |-> FALSE, lattice |-> TRUE, radius |-> 10]
            [] k = "speech" -> [id |-> k, speech |-> TRUE, lattice |-> FALSE, radius |-> 10]
            [] k = "lattice" -> [id |-> k, speech |-> TRUE, lattice |-> TRUE, radius |-> 10]
            [] k = "badaudio" -> [id |-> k, speech |-> FALSE, lattice |-> FALSE, radius |-> 10]
            [] k = "badlattice" -> [id |-> k, speech |-> TRUE, lattice |-> TRUE, radius |-> 10]
Kind(k) == CASE k = "audio" -> "svr" [] k = "lattice" -> "lattice" [] OTHER -> "missing"
Init == st = [o \in Objs |-> Unusable] /\ hist = <<>> /\ mem = {}
DoInit(o, k) == /\ st' = [st EXCEPT ![o] = AfterInit(Opt(k), Kind(k))]
                /\ hist' = Append(hist, [f |-> "init", o |-> o, opt |-> k]) /\ UNCHANGED mem
DoRun(o, p) == /\ UNCHANGED st
               /\ hist' = Append(hist, [f |-> "run", o |-> o, pair |-> p])
               /\ mem' = IF Scored(st[o], p) THEN mem \cup {<<st[o].opt.id, p>>} ELSE mem
DoDrop(o) == st' = [st EXCEPT ![o] = Unusable] /\ hist' = Append(hist, [f |-> "drop", o |-> o]) /\ UNCHANGED mem
Next == Len(hist) < MaxOps /\ \E o \in Objs :
          \/ \E k \in OptIds : DoInit(o, k)
          \/ \E p \in PairKinds : DoRun(o, p)
          \/ DoDrop(o)
Spec == Init /\ [][Next]_vars
\* usable exactly when the object's last initialisation succeeded and it was not dropped since
LastSet(o) == LET I == {i \in 1..Len(hist) : hist[i].o = o /\ hist[i].f # "run"}
              IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
UsableIffLastInitOk == \A o \in Objs : st[o].usable <=>
   LET i == LastSet(o) IN i # 0 /\ hist[i].f = "init" /\ InitCode(Opt(hist[i].opt), Kind(hist[i].opt)) = "OK"
\* comparisons never change what later comparisons of any object may do
RunsLeaveNoTrace == [][hist' # hist /\ hist'[Len(hist')].f = "run" => st' = st]_vars
Case == Len(hist) = MaxOps /\ hist[MaxOps].f = "run" => PrintT(ToJson([ops |-> hist]))
==============================================================================
