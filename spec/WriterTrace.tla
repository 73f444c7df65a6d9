------------------------------ MODULE WriterTrace ------------------------------
EXTENDS Writer, Judge
RECURSIVE Walk(_, _, _, _, _)
Walk(steps, out, i, ex, broken) ==
  IF i > Len(steps) THEN broken
  ELSE Walk(steps, out, i + 1, TLCEval(After(ex, steps[i])),
            TLCEval(broken \cup (IF steps[i].f = "write" THEN WriteClauses(ex, steps[i], out[i]) ELSE {})))
WriterViolations(r) == IF Len(r.out) # Len(r.in.steps) THEN {"unfinished"} ELSE Walk(r.in.steps, r.out, 1, {}, {})
==============================================================================
