------------------------------- MODULE PipeTrace -------------------------------
(* Validates recorded comparisons against Pipeline.                          *)
EXTENDS Pipeline, Judge
Each(r, Op(_, _, _)) == UNION {Op(r.in.opt, r.in.pairs[i], r.runs[i]) : i \in 1..Len(r.runs)}
Consist(o, c, x) == ConsistentViolations(o, x)
PlanOp(o, c, x) == PlanViolations(o, IF "want" \in DOMAIN c THEN [want |-> c.want] @@ x ELSE x)
ConsistViolations(r) == Each(r, Consist)
PlanRunViolations(r) == Each(r, PlanOp)
LawViolations(r) == Each(r, IdentityViolations)
GainViolations(r) == LevelLaw(r.runs) \cup (Each(r, Consist) \cap {"score-range", "not-finite"})
TableViolations(r) == Each(r, LAMBDA o, c, x : PublishedViolations(c, x))
==============================================================================
