------------------------------- MODULE MapTrace -------------------------------
(* Validates recorded histories.  Models loaded from files are given, parsed, *)
(* in MODELS; a trained model is the recorded reference solution.             *)
EXTENDS Mapping, Judge
Models == JsonDeserialize(IOEnv.MODELS)
Slots == 0..3
Near(a, b) == FNear(a, b, "1e-9")
ModelOf(h, trained) == CASE h.held = "train" -> trained [] OTHER -> Models[h.file]

\* (held, last training result per slot) after the first i operations
RECURSIVE Walk(_, _, _, _, _, _)
Walk(ops, out, i, s, tr, broken) ==
  IF i > Len(ops) THEN broken
  ELSE LET o == ops[i]
           r == out[i]
           m == ModelOf(s[o.o], tr[o.o])
           clauses ==
             CASE o.f \in {"load", "mapper"} -> IF r.code = CodeOf(o) THEN {} ELSE {"load-status"}
               [] o.f = "lattice" -> IF (o.file = 0) = (r.code = "OK") THEN {"lattice-load-status"} ELSE {}
               [] o.f = "train" ->
                    (IF FEq(o.param.C, TrainC) /\ FEq(o.param.nu, TrainNu) /\ FEq(o.param.eps, TrainEps)
                        /\ FEq(o.param.gamma, TrainGamma(Len(o.obs[1]))) /\ Solution(r.model, Len(o.targets))
                     THEN {} ELSE {"reference-solution"})
               [] o.f = "predict" -> IF Near(r.y, Decision(m, o.x)) THEN {} ELSE {IF s[o.o].held = "train" THEN "trained-prediction" ELSE "prediction"}
               [] o.f = "quality" -> IF Near(r.y, Quality(Decision(m, o.x))) THEN {} ELSE {"quality"}
               [] o.f = "lquality" ->
                    LET want == TLCEval(LatticeInput(o.x, o.x10, o.xs, o.xe, 21)) IN
                    (IF DOMAIN r.inputs = DOMAIN want /\ \A n \in DOMAIN want : FEq(r.inputs[n], want[n]) THEN {} ELSE {"lattice-inputs"})
                    \cup (IF r.invokes = 1 THEN {} ELSE {"invoked-once"})
                    \cup (IF r.unknown = 0 THEN {} ELSE {"unknown-tensor"})
                    \cup (IF FEq(r.y, r.answer) THEN {} ELSE {"answer"})
               [] o.f = "read" -> IF Len(r.rows) = Len(o.rows) /\ \A k \in 1..Len(o.rows) :
                                        Len(r.rows[k]) = Len(o.rows[k]) /\ \A j \in 1..Len(o.rows[k]) : FEq(r.rows[k][j], o.rows[k][j])
                                  THEN {} ELSE {"training-data"}
               [] OTHER -> {}
       IN Walk(ops, out, i + 1, TLCEval(HeldAfter(s, o)), IF o.f = "train" THEN [tr EXCEPT ![o.o] = r.model] ELSE tr, TLCEval(broken \cup clauses))
MapViolations(r) ==
  IF Len(r.out) # Len(r.in.ops) THEN {"unfinished"}
  ELSE Walk(r.in.ops, r.out, 1, [q \in Slots |-> None], [q \in Slots |-> None], {})
==============================================================================
