-------------------------------- MODULE ResTrace --------------------------------
(* Judges what the process held, and needed, against Resources.               *)
EXTENDS Resources, Judge
HeldViolations(r) == HeldClauses(r.held, IF "unparsable" \in DOMAIN r.in THEN r.in.unparsable ELSE 0)
(* A behaviour of another specification, run on a build in which every access  *)
(* out of bounds or to freed memory ends the process: it must simply finish.   *)
SafeViolations(r) == {}
NeedsViolations(r) == NeedsClauses(r.needs, r.in.law)
BatchMemoryViolations(r) == BatchClauses(r.runs[1], r.runs[2]) \cup
                            (IF r.files THEN {} ELSE {"open-files-grow-with-history"})
=================================================================================
