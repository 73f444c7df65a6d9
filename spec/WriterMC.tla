------------------------------- MODULE WriterMC -------------------------------
(* Every short history of results written to fresh, existing, emptied and     *)
(* removed files.  disk[f] is "absent" or the sequence of what is in it:      *)
(* "old" text, "H" a header, a number: the row or object of that operation.   *)
EXTENDS Writer, Json
CONSTANTS MaxOps
VARIABLES disk, hist
vars == <<disk, hist>>
Csvs == {"c0", "c1"}
Jsons == {"j0"}
Init == disk = [f \in Csvs \cup Jsons |-> <<"absent">>] /\ hist = <<>>
Absent(f) == disk[f] = <<"absent">>
Content(f) == IF Absent(f) THEN <<>> ELSE disk[f]
K == Len(hist) + 1
Write(c, j) ==
  /\ disk' = [f \in DOMAIN disk |->
               IF f = c THEN (IF Absent(c) THEN <<"H">> ELSE Content(c)) \o <<ToString(K)>>
               ELSE IF f = j THEN Content(j) \o <<ToString(K)>> ELSE disk[f]]
  /\ hist' = Append(hist, [f |-> "write", csv |-> c, json |-> j])
Put(f, e) == /\ Absent(f) /\ disk' = [disk EXCEPT ![f] = IF e THEN <<>> ELSE <<"old">>]
             /\ hist' = Append(hist, [f |-> "put", file |-> f, empty |-> e])
Del(f) == ~Absent(f) /\ disk' = [disk EXCEPT ![f] = <<"absent">>] /\ hist' = Append(hist, [f |-> "del", file |-> f])
Next == Len(hist) < MaxOps /\
  \/ \E c \in Csvs \cup {""}, j \in Jsons \cup {""} : Write(c, j)
  \/ \E f \in DOMAIN disk : Del(f) \/ \E e \in BOOLEAN : Put(f, e)
Spec == Init /\ [][Next]_vars
\* a header only ever starts a file, and only one that writing created
OneHeader == \A f \in DOMAIN disk : \A i \in 1..Len(disk[f]) : disk[f][i] = "H" => i = 1 /\ f \in Csvs
HeaderUnlessOld == \A c \in Csvs : ~Absent(c) /\ Len(disk[c]) > 0 /\ disk[c][1] \notin {"H", "old"} =>
                     \E i \in 1..Len(hist) : hist[i].f = "put" /\ hist[i].file = c
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
AppendOnly == [][hist' # hist /\ hist'[Len(hist')].f = "write" => \A f \in DOMAIN disk : Prefix(Content(f), disk'[f]) \/ disk'[f] = <<"absent">>]_vars
\* every row that was written and not deleted since is there, once, in order
Ordered == \A f \in DOMAIN disk : \A i, j \in 1..Len(disk[f]) : i < j /\ disk[f][i] = disk[f][j] => FALSE
Case == (Len(hist) = MaxOps /\ hist[MaxOps].f = "write") => PrintT(ToJson([steps |-> hist]))
==============================================================================
