------------------------------- MODULE ConcTrace -------------------------------
(* Validates recorded concurrent runs.  BASE: what each operation of each      *)
(* thread's program returns when the program runs alone in its own process.    *)
EXTENDS Conc, Judge
Base == JsonDeserialize(IOEnv.BASE)
Alone(k) == Base[CHOOSE i \in 1..Len(Base) : Base[i].key = k].out
ConcViolations(r) ==
  IF r.stuck THEN {"stuck"}
  ELSE (IF LogOk(r.log, 1, Nobody) THEN {} ELSE {"loader-not-exclusive"})
       \cup (IF \A t \in 1..Len(r.in.keys) : r.out[t] = Alone(r.in.keys[t]) THEN {} ELSE {"result-differs-from-sequential"})
       \cup (IF r.races = 0 THEN {} ELSE {"data-race"})
==============================================================================
