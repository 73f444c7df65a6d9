---------------------------------- MODULE ResMC ----------------------------------
(* Histories of one object, step by step: every operation may be cut short by  *)
(* an error between any two of its acquisitions.                              *)
EXTENDS Resources, Json
CONSTANTS Kind, MaxPrefix, MaxLoop
VARIABLES x, own, tmp, op, pc, hist, split
vars == <<x, own, tmp, op, pc, hist, split>>
Idle == [f |-> "idle"]
Ops == CASE Kind \in {"manager", "api"} -> [f : {"init"}, to : {"speech", "audio", "lattice"}, ok : BOOLEAN]
                                           \cup [f : {IF Kind = "manager" THEN "run" ELSE "measure"}, to : {"same"}, ok : BOOLEAN]
                                           \cup [f : {"drop"}, to : {"none"}, ok : {TRUE}]
         [] Kind = "svr" -> [f : {"load"}, to : {"loaded"}, ok : BOOLEAN] \cup [f : {"train"}, to : {"trained"}, ok : {TRUE}]
                            \cup [f : {"ask"}, to : {"same"}, ok : {TRUE}] \cup [f : {"drop"}, to : {"none"}, ok : {TRUE}]
         [] OTHER -> [f : {"load"}, to : {"loaded"}, ok : BOOLEAN] \cup [f : {"ask"}, to : {"same"}, ok : {TRUE}]
Allowed(o) == (o.f = "ask" => x \in {"loaded", "trained"}) /\ (o.f = "drop" => x # "none" \/ Len(hist) >= split)
\* the state after the operation: a failed initialisation leaves nothing usable behind
After(s, o) == IF o.to = "same" THEN (IF s = "none" /\ o.f # "ask" THEN "blank" ELSE s) ELSE IF o.ok THEN o.to ELSE "blank"
None == [r \in {} |-> 0]
Bag(S) == [r \in S |-> 1]
Plus(b, r) == IF r \in DOMAIN b THEN [b EXCEPT ![r] = @ + 1] ELSE b @@ (r :> 1)
Minus(b, r) == [q \in {q \in DOMAIN b : q # r \/ b[q] > 1} |-> IF q = r THEN b[q] - 1 ELSE b[q]]
Init == x = "none" /\ own = None /\ tmp = None /\ op = Idle /\ pc = 0 /\ hist = <<>> /\ split \in 0..MaxPrefix
Start == /\ op = Idle /\ Len(hist) < split + MaxLoop
         /\ \E o \in Ops : Allowed(o) /\ op' = o /\ hist' = Append(hist, o)
         /\ pc' = 0 /\ UNCHANGED <<x, own, tmp, split>>
Released == IF pc > 0 /\ Short(Steps(op.f, op.to)[pc]) THEN Minus(tmp, Steps(op.f, op.to)[pc]) ELSE tmp
Acquire == /\ op # Idle /\ pc < Len(Steps(op.f, op.to))
           /\ tmp' = Plus(Released, Steps(op.f, op.to)[pc + 1])
           /\ pc' = pc + 1 /\ UNCHANGED <<x, own, op, hist, split>>
\* done: the object takes over what it keeps, letting go of what it had; the rest is given up
Finish == /\ op # Idle /\ pc = Len(Steps(op.f, op.to)) /\ op.ok
          /\ x' = After(x, op)
          /\ own' = IF op.to = "same" THEN (IF x' # x THEN Bag({"object"}) ELSE own)
                    ELSE [r \in (DOMAIN Released \cap Owns(op.to)) |-> 1]
          /\ tmp' = None /\ op' = Idle /\ pc' = 0 /\ UNCHANGED <<hist, split>>
\* cut short
Fail == /\ op # Idle /\ ~op.ok
        /\ x' = After(x, op)
        /\ own' = IF op.to = "same" THEN (IF x' # x THEN Bag({"object"}) ELSE own) ELSE Bag({"object"})
        /\ tmp' = None /\ op' = Idle /\ pc' = 0 /\ UNCHANGED <<hist, split>>
Next == Start \/ Acquire \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars
\* between operations the process holds exactly what the live object owns, once each
HoldsWhatItOwns == op = Idle => tmp = None /\ DOMAIN own = Owns(x) /\ \A r \in DOMAIN own : own[r] = 1
\* hence repeating operations does not add up: every operation is idempotent on what is held
Again == op = Idle /\ hist # <<>> => After(After(x, hist[Len(hist)]), hist[Len(hist)]) = After(x, hist[Len(hist)])
OneFileAtATime == "handle" \in DOMAIN tmp => tmp["handle"] = 1
\* the part after the split can be repeated: what it asks of the object can be asked each time
RECURSIVE Replayable(_, _)
Replayable(s, i) == i > Len(hist) \/ (/\ (hist[i].f = "ask" => s \in {"loaded", "trained"})
                                       /\ Replayable(After(s, hist[i]), i + 1))
Case == (op = Idle /\ Len(hist) > split /\ Replayable(x, split + 1)) => PrintT(ToJson([prefix |-> split, ops |-> hist]))
==================================================================================
