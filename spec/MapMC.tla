-------------------------------- MODULE MapMC --------------------------------
(* All short histories on two objects: creating, loading (good, other, bad   *)
(* files), training, predicting, destroying.  Printed for replay.            *)
EXTENDS Mapping, Json
CONSTANTS MaxOps, Kind      \* Kind: "svr", "mapper" or "lattice"
VARIABLES s, hist
vars == <<s, hist>>
Obj == {0, 1}
Loads == CASE Kind = "svr" -> [f : {"load"}, o : Obj, file : {0, 1, 2}] \cup [f : {"new"}, o : Obj] \cup [f : {"train"}, o : Obj, set : {1}]
           [] Kind = "mapper" -> [f : {"mapper"}, o : Obj, file : {0, 1, 2}]
           [] Kind = "lattice" -> [f : {"lattice"}, o : Obj, file : {0, 1}]
Ask == CASE Kind = "svr" -> "predict" [] Kind = "mapper" -> "quality" [] Kind = "lattice" -> "lquality"
Asks == [f : {Ask}, o : {q \in Obj : s[q].held # "none"}, x : {1, 2}]
Frees == IF Kind = "svr" THEN [f : {"free"}, o : Obj] ELSE {}
Init == s = [q \in Obj |-> None] /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E o \in Loads \cup Asks \cup Frees : s' = HeldAfter(s, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
\* an object holds exactly what its own last load or training made, whatever else happened
LastOwn(q) == LET mine == {i \in 1..Len(hist) : hist[i].o = q /\ hist[i].f \notin {"predict", "quality", "lquality"}}
              IN IF mine = {} THEN None ELSE LET i == CHOOSE i \in mine : \A j \in mine : j <= i IN HeldAfter([p \in Obj |-> None], hist[i])[q]
OwnHistoryOnly == \A q \in Obj : s[q] = LastOwn(q)
AsksAnswerable == \A i \in 1..Len(hist) : hist[i].f \in {"predict", "quality", "lquality"} =>
                     \E j \in 1..(i - 1) : hist[j].o = hist[i].o /\ hist[j].f \notin {"new", "free"}
Case == (Len(hist) = MaxOps /\ hist[MaxOps].f \in {"predict", "quality", "lquality", "load", "mapper", "lattice"}) => PrintT(ToJson([ops |-> hist]))
==============================================================================
