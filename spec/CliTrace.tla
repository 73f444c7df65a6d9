------------------------------- MODULE CliTrace -------------------------------
(* Validates recordings of the parser, of batch reading and of whole program  *)
(* runs.  BASE: what each (flags, pair) gives when it is compared alone.       *)
EXTENDS Cli, Judge
Present(r) == {(IF Len(r.in.make[i]) > 0 /\ SubSeq(r.in.make[i], 1, 1) = "/" THEN "" ELSE "@/") \o r.in.make[i] : i \in 1..Len(r.in.make)}
ParseViolations(r) == ParseClauses(r.in.opts, Present(r), r.in.texts.batch, r)
BatchViolations(r) == IF \A i \in 1..Len(r.in.texts) : PairsOk(r.in.texts[i], r.pairs[i]) THEN {} ELSE {"batch-pairs"}
\* a text made of the given rows, two fields or more and none of them empty
BatchRowsViolations(r) == IF r.pairs = <<[i \in 1..Len(r.in.rows) |-> <<r.in.rows[i][1], r.in.rows[i][2]>>]>> THEN {} ELSE {"batch-pairs"}

Base == JsonDeserialize(IOEnv.BASE)
Alone(key, p) == LET K == {i \in 1..Len(Base) : Base[i].key = key /\ Base[i].ref = p[1] /\ Base[i].deg = p[2]}
                 IN Base[CHOOSE i \in K : TRUE]
Ok(key, p) == Alone(key, p).ok
Hdr(rows) == IF rows = <<>> THEN <<>> ELSE rows[1]
RunClauses(r) ==
  LET key == r.in.key
      L == Listed(Chars(r.in.texts["batch.csv"]))
      S == SelectSeq([i \in 1..Len(L) |-> L[i].pair], LAMBDA p : Ok(key, p))
      n == Len(S)
  IN (IF r.rc = 0 THEN {} ELSE {"exit-status"})
     \cup (IF Len(r.console.scores) = n /\ \A i \in 1..Len(r.console.scores) : r.console.scores[i] = Alone(key, S[i]).score
           THEN {} ELSE {"batch-scores"})
     \cup (IF ~r.in.csv THEN {}
           ELSE IF n = 0 THEN (IF r.csv.rows = <<>> THEN {} ELSE {"batch-csv"})
           ELSE IF r.csv.whole /\ Len(r.csv.rows) = n + 1 /\ \A i \in 1..n : r.csv.rows[i + 1] = Alone(key, S[i]).row THEN {} ELSE {"batch-csv"})
     \cup (IF ~r.in.json THEN {}
           ELSE IF r.json.whole /\ Len(r.json.objs) = n
                   /\ \A i \in 1..n : r.json.objs[i].hash = Alone(key, S[i]).hash /\ <<r.json.objs[i].ref, r.json.objs[i].deg>> = S[i]
                THEN {} ELSE {"batch-json"})
BatchRunViolations(r) == RunClauses(r)

(* A single pair: the program's result is the manager's under the options     *)
(* given (BASE: what the manager gives).                                      *)
SingleViolations(r) ==
  LET ok == Accepts(Opts(r.in.opts), Present(r) \cup {"@/ref.wav", "@/deg.wav"}) /\ r.in.model_ok
      want == IF ok THEN Alone(r.in.key, <<r.in.ref, r.in.deg>>) ELSE [ok |-> FALSE]
  IN (IF (r.rc = 0) = ok THEN {} ELSE {"exit-status"})
     \cup (IF ~want.ok THEN (IF r.json.objs = <<>> /\ r.console.scores = <<>> /\ r.csv.rows = <<>> THEN {} ELSE {"result-without-score"})
           ELSE IF Len(r.json.objs) = 1 /\ r.json.objs[1].hash = want.hash THEN {} ELSE {"options-not-passed-through"})
==============================================================================
