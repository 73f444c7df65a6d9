------------------------------- MODULE BatchMC -------------------------------
(* Every batch text of up to MaxLen symbols, read one symbol at a time.       *)
EXTENDS Batch, Json
CONSTANTS MaxLen, Syms
VARIABLES text, first, fields, cur, out
vars == <<text, first, fields, cur, out>>
Init == text = <<>> /\ first = TRUE /\ fields = <<>> /\ cur = "" /\ out = <<>>
Done == IF first \/ fields = <<>> THEN out
        ELSE LET f == Append(fields, cur) IN Append(out, Row(f))
Eat(c) == \* c = "crlf" is the two characters
  /\ text' = text \o (IF c = "crlf" THEN <<"\r", "\n">> ELSE IF c = "lf" THEN <<"\n">> ELSE <<c>>)
  /\ IF c \in {"lf", "crlf"} THEN first' = FALSE /\ fields' = <<>> /\ cur' = "" /\ out' = Done
     ELSE IF c = "," THEN fields' = Append(fields, cur) /\ cur' = "" /\ UNCHANGED <<first, out>>
     ELSE cur' = cur \o c /\ UNCHANGED <<first, fields, out>>
Next == Len(text) < MaxLen /\ \E c \in Syms : Eat(c)
Spec == Init /\ [][Next]_vars
StreamIsDefinition == Done = Listed(text)
\* reading on never changes the pairs of complete lines
Monotone == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
Case == PrintT(ToJson([t |-> Join(text)]))
==============================================================================
