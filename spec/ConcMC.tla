-------------------------------- MODULE ConcMC --------------------------------
(* All schedules of small programs.                                          *)
EXTENDS Conc, Json
CONSTANTS N, MaxLen, Emit
VARIABLES prog, pc, st, lock, log, obj, sched
vars == <<prog, pc, st, lock, log, obj, sched>>
T == 0..(N - 1)
Ops == {"load", "badload", "predict", "free"}
\* programs worth running: start with a load, predict only with a model
RECURSIVE Sensible(_, _, _)
Sensible(p, i, have) == i > Len(p) \/
  CASE p[i] = "load" -> Sensible(p, i + 1, TRUE)
    [] p[i] = "badload" -> Sensible(p, i + 1, FALSE)
    [] p[i] = "predict" -> have /\ Sensible(p, i + 1, have)
    [] p[i] = "free" -> have /\ Sensible(p, i + 1, FALSE)
Programs == UNION {{p \in [1..k -> Ops] : Sensible(p, 1, FALSE)} : k \in 1..MaxLen}
Init == /\ prog \in [T -> Programs]
        /\ pc = [t \in T |-> 1] /\ st = [t \in T |-> "before"] /\ lock = Nobody /\ log = <<>>
        /\ obj = [t \in T |-> "none"] /\ sched = <<>>
Op(t) == prog[t][pc[t]]
Running(t) == pc[t] <= Len(prog[t])
Loads(t) == Op(t) \in {"load", "badload"}
Enter(t) == st' = [st EXCEPT ![t] = "inside"] /\ lock' = t /\ log' = Append(log, [e |-> "enter", t |-> t])
Go(t) == /\ Running(t) /\ sched' = Append(sched, t) /\ UNCHANGED prog
         /\ \/ st[t] = "before" /\ Loads(t) /\ lock = Nobody /\ Enter(t) /\ UNCHANGED <<pc, obj>>
            \/ st[t] = "before" /\ Loads(t) /\ lock # Nobody /\ st' = [st EXCEPT ![t] = "waiting"] /\ UNCHANGED <<pc, obj, lock, log>>
            \/ /\ st[t] = "before" /\ ~Loads(t) /\ pc' = [pc EXCEPT ![t] = @ + 1]
               /\ obj' = IF Op(t) = "free" THEN [obj EXCEPT ![t] = "none"] ELSE obj
               /\ UNCHANGED <<st, lock, log>>
            \/ /\ st[t] = "inside" /\ pc' = [pc EXCEPT ![t] = @ + 1]
               /\ obj' = [obj EXCEPT ![t] = IF Op(t) = "load" THEN "model" ELSE "none"]
               /\ LET W == {u \in T : st[u] = "waiting"}
                      out == Append(log, [e |-> "leave", t |-> t])
                  IN IF W = {} THEN st' = [st EXCEPT ![t] = "before"] /\ lock' = Nobody /\ log' = out
                     ELSE \E u \in W : /\ st' = [st EXCEPT ![t] = "before", ![u] = "inside"] /\ lock' = u
                                       /\ log' = Append(out, [e |-> "enter", t |-> u])
Next == \E t \in T : Go(t)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in T : WF_vars(Go(t))
OneInside == Cardinality({t \in T : st[t] = "inside"}) <= 1 /\ (lock = Nobody <=> {t \in T : st[t] = "inside"} = {})
AllDone == \A t \in T : ~Running(t)
NoDeadlock == AllDone \/ \E t \in T : ENABLED Go(t)
Everybody == <>AllDone
LogIsLockBehaviour == AllDone => LogOk(log, 1, Nobody)
OwnObject == \A t \in T : (Running(t) /\ Op(t) \in {"predict", "free"} /\ st[t] = "before") => obj[t] = "model"
Case == (Emit /\ AllDone) => PrintT(ToJson([progs |-> [i \in 1..N |-> prog[i - 1]], sched |-> sched]))
NoHist == <<prog, pc, st, lock, obj>>
==============================================================================
