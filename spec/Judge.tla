-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Trace validation harness.  The trace (one JSON record per line) was      *)
(* recorded from the real code; Violations(r) - supplied by the specification*)
(* being checked - is the set of clauses of the specification that record r *)
(* breaks.  Every record is one step of this behaviour.  To let TLC's       *)
(* workers share the work the trace is cut into chunks, each an initial     *)
(* state.  Rejections are printed; the runner also checks that exactly      *)
(* Len(Trace) states were found, i.e. that every record was judged.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Violations(_)
VARIABLES l, bad

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 40

Verdict(r) == IF "crash" \in DOMAIN r THEN {"crash"}
              ELSE IF "exc" \in DOMAIN r THEN {"unexpected-exception"}
              ELSE Violations(r)

JInit == /\ l \in {k \in 1..Len(Trace) : k % Chunk = 1}
         /\ bad = {"pending"}
JNext == \/ /\ bad = {"pending"}
            /\ bad' = Verdict(Trace[l])
            /\ l' = l
         \/ /\ bad # {"pending"}
            /\ l < Len(Trace) /\ l % Chunk # 0
            /\ l' = l + 1
            /\ bad' = {"pending"}
JSpec == JInit /\ [][JNext]_<<l, bad>>

Report == bad \in {{}, {"pending"}} \/ PrintT(ToJson([reject |-> l, clauses |-> bad]))
==============================================================================
