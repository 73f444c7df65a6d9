-------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* Batch files: which pairs a text lists.  Two readings that must agree (see *)
(* BatchMC): a machine consuming one symbol at a time, and the declarative    *)
(* one below.  Symbols are one-character strings; a carriage return only      *)
(* appears before a line feed.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Chars(t) == TLCEval([i \in 1..Len(t) |-> SubSeq(t, i, i)])

(* Cut a sequence of symbols at each separator; the last piece may be empty.  *)
RECURSIVE Cut(_, _, _, _)
Cut(s, sep, i, cur) == IF i > Len(s) THEN <<cur>>
                       ELSE IF s[i] = sep THEN <<cur>> \o Cut(s, sep, i + 1, <<>>)
                       ELSE Cut(s, sep, i + 1, Append(cur, s[i]))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1] \o Join(Tail(s))
NoCr(line) == IF line # <<>> /\ line[Len(line)] = "\r" THEN SubSeq(line, 1, Len(line) - 1) ELSE line
\* text after the last line feed is a line only if there is some
Lines(s) == LET L == TLCEval(Cut(s, "\n", 1, <<>>))
            IN IF L[Len(L)] = <<>> THEN SubSeq(L, 1, Len(L) - 1) ELSE L
Fields(line) == LET C == TLCEval(Cut(line, ",", 1, <<>>)) IN TLCEval([i \in 1..Len(C) |-> Join(C[i])])
\* the header is skipped; a line without a comma is no pair; one with an empty
\* first or second field may or may not be taken for one
Rows(s) == LET L == TLCEval(Lines(s)) IN [i \in 1..(IF L = <<>> THEN 0 ELSE Len(L) - 1) |-> Fields(NoCr(L[i + 1]))]
Row(f) == IF Len(f) < 2 THEN [kind |-> "none"]
          ELSE [kind |-> IF f[1] = "" \/ f[2] = "" THEN "open" ELSE "pair", pair |-> <<f[1], f[2]>>]
Keep(r) == r.kind # "none"
Listed(s) == LET R == TLCEval(Rows(s)) IN SelectSeq(TLCEval([i \in 1..Len(R) |-> Row(R[i])]), Keep)
RECURSIVE Explains(_, _, _, _)
Explains(L, i, got, j) == IF i > Len(L) THEN j > Len(got)
   ELSE \/ (j <= Len(got) /\ got[j] = L[i].pair /\ Explains(L, i + 1, got, j + 1))
        \/ (L[i].kind = "open" /\ Explains(L, i + 1, got, j))
PairsOk(text, got) == Explains(TLCEval(Listed(Chars(text))), 1, got, 1)

(***************************************************************************)
(* A run of the program over the rows: `alone` says what comparing a pair on *)
(* its own gives - [ok, score, row, hash].                                   *)
(***************************************************************************)
Scored(rows, alone) == SelectSeq(rows, LAMBDA p : alone[p].ok)
==============================================================================
