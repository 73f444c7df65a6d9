------------------------------- MODULE LifeTrace -------------------------------
(* Validates recorded histories against Lifecycle.  BASE holds what each      *)
(* (options, pair) returned in a process of its own.                          *)
EXTENDS Lifecycle, Judge
Base == JsonDeserialize(IOEnv.BASE)
Slots == 0..3
Key(opt, o) == {i \in 1..Len(Base) : Base[i].opt = opt /\ Base[i].ref = o.ref /\ Base[i].deg = o.deg}
\* the result, as remembered; the fresh process may itself have failed
Remembered(opt, o) == LET K == Key(opt, o) IN IF K = {} THEN "no-baseline" ELSE Base[CHOOSE i \in K : TRUE].hash

RunClauses(st, o, r) ==
  (IF RunCodeOk(st, o.kind, r.code) THEN {}
   ELSE {IF ~st.usable THEN "run-while-unusable" ELSE "run-status-" \o o.kind})
  \cup (IF r.code = "OK" /\ Scored(st, o.kind) /\ r.hash # Remembered(st.opt, o) THEN {"result-depends-on-history"} ELSE {})
  \cup (IF "kept" \in DOMAIN r /\ ~r.kept THEN {"reference-modified"} ELSE {})
  \cup (IF "paths" \in DOMAIN r /\ ~r.paths THEN {"paths"} ELSE {})

RECURSIVE Walk(_, _, _, _, _)
Walk(ops, out, i, s, broken) ==
  IF i > Len(ops) THEN broken
  ELSE LET o == ops[i]
           r == out[i]
           step ==
             CASE o.f = "init" -> <<[s EXCEPT ![o.o] = AfterInit(o.opt, o.kind)],
                                    IF r.code = InitCode(o.opt, o.kind) THEN {} ELSE {"init-status"}>>
               [] o.f = "run" -> <<s, RunClauses(s[o.o], o, r)>>
               [] o.f = "drop" -> <<[s EXCEPT ![o.o] = Unusable], {}>>
               [] o.f = "create" ->
                    <<[s EXCEPT ![o.o] = IF CreateOk(o.cfg, o.kind, o.dflt) THEN Usable(Derived(o.cfg, o.am, o.sm)) ELSE Unusable],
                      IF r.code = CreateCode(o.cfg, o.kind, o.dflt) THEN {} ELSE {"create-status"}>>
               [] o.f = "measure" -> <<s, RunClauses(s[o.o], o, r)>>
       IN Walk(ops, out, i + 1, TLCEval(step[1]), TLCEval(broken \cup step[2]))
LifeViolations(r) ==
  IF Len(r.out) # Len(r.in.ops) THEN {"unfinished"}
  ELSE Walk(r.in.ops, r.out, 1, [q \in Slots |-> Unusable], {})
==============================================================================
