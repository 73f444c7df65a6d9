-------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* The result files.  State: which files exist and what is in them.  Writing *)
(* a result only ever appends: to the CSV file one row (after a header, if    *)
(* the file did not exist), to the debug file one JSON object; and the        *)
(* console shows the score.  Nothing else is created or changed.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

\* to nine significant digits (six on the console)
Digits(x, v, tol) == FLe(FAbs(FSub(x, v)), FMul(tol, FAbs(v)))
Near9(x, v) == Digits(x, v, "6e-9")
Near6(x, v) == Digits(x, v, "6e-6")
Within(x, v, e) == FLe(FAbs(FSub(x, v)), FAdd(e, FMul("1e-15", FAbs(v))))

RECURSIVE Names(_, _, _)
Names(p, i, n) == IF i >= n THEN <<>> ELSE <<p \o ToString(i)>> \o Names(p, i + 1, n)
Header(m) == <<"reference", "degraded", "moslqo">> \o Names("fvnsim", 0, Len(m.fvnsim))
             \o Names("fvnsim10_", 0, Len(m.fvnsim10)) \o Names("fstdnsim", 0, Len(m.fstd))
             \o Names("fvdegenergy", 0, Len(m.fen))
Values(m) == <<m.mos>> \o m.fvnsim \o m.fvnsim10 \o m.fstd \o m.fen
RowOk(f, m) == /\ Len(f) = 2 + Len(Values(m))
               /\ f[1] = m.ref /\ f[2] = m.deg
               /\ LET v == Values(m) IN \A i \in 1..Len(v) : Near9(f[i + 2], v[i])
CsvClauses(existed, m, got) ==
  LET n == IF existed THEN 1 ELSE 2
  IN IF ~got.whole \/ Len(got.rows) # n THEN {"csv-lines"}
     ELSE (IF existed \/ got.rows[1] = Header(m) THEN {} ELSE {"csv-header"})
          \cup (IF RowOk(got.rows[n], m) THEN {} ELSE {"csv-row"})
          \cup (IF existed \/ Len(got.rows[1]) = Len(got.rows[2]) THEN {} ELSE {"csv-width"})

SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FEq(a[i], b[i])
SamePatch(p, q) == /\ FEq(p.sim, q.sim) /\ SameSeq(p.means, q.means) /\ FEq(p.rs, q.rs) /\ FEq(p.re, q.re)
                   /\ FEq(p.ds, q.ds) /\ FEq(p.de, q.de)
Same(o, m) == /\ o.ref = m.ref /\ o.deg = m.deg /\ FEq(o.mos, m.mos) /\ FEq(o.vnsim, m.vnsim) /\ FEq(o.lag, m.lag)
              /\ SameSeq(o.fvnsim, m.fvnsim) /\ SameSeq(o.fvnsim10, m.fvnsim10) /\ SameSeq(o.fstd, m.fstd)
              /\ SameSeq(o.fen, m.fen) /\ SameSeq(o.bands, m.bands)
              /\ Len(o.patches) = Len(m.patches) /\ \A i \in 1..Len(o.patches) : SamePatch(o.patches[i], m.patches[i])
JsonClauses(m, got) == IF ~got.whole \/ Len(got.objs) # 1 THEN {"json-objects"}
                       ELSE IF Same(got.objs[1], m) THEN {} ELSE {"json-fields"}

Mode(speech, lattice) == IF ~speech THEN "Audio mode, support vector regression model"
                         ELSE IF lattice THEN "Speech mode, lattice model" ELSE "Speech mode, exponential model"
BandRow(w, m, i) == Len(w) = 3 /\ Within(w[1], m.fvnsim[i], "6e-7") /\ Within(w[2], m.fvnsim10[i], "6e-7") /\ Within(w[3], m.bands[i], "0.051")
PatchRow(w, p, i) == /\ Len(w) = 6 /\ FEq(w[1], i - 1) /\ Within(w[2], p.sim, "6e-7")
                     /\ Within(w[3], p.rs, "6e-4") /\ Within(w[4], p.re, "6e-4") /\ Within(w[5], p.ds, "6e-4") /\ Within(w[6], p.de, "6e-4")
ConsoleClauses(o, m, c) ==
  (IF Len(c.scores) = 1 /\ Near6(c.scores[1], m.mos) THEN {} ELSE {"console-score"})
  \cup (IF c.modes = <<Mode(o.speech, o.lattice)>> THEN {} ELSE {"console-mode"})
  \cup (IF ~o.verbose THEN {}
        ELSE (IF c.paths = <<m.ref, m.deg>> THEN {} ELSE {"console-paths"})
             \cup (IF Len(c.bands) = Len(m.fvnsim) /\ \A i \in 1..Len(c.bands) : BandRow(c.bands[i], m, i) THEN {} ELSE {"console-bands"})
             \cup (IF Len(c.patches) = Len(m.patches) /\ \A i \in 1..Len(c.patches) : PatchRow(c.patches[i], m.patches[i], i) THEN {} ELSE {"console-patches"}))

(* One step: `ex` are the files that exist.                                   *)
After(ex, o) == CASE o.f = "put" -> ex \cup {o.file}
                  [] o.f = "del" -> ex \ {o.file}
                  [] o.f = "write" -> ex \cup ({o.csv, o.json} \ {""})
WriteClauses(ex, o, r) ==
  LET m == o.msg
      targets == {o.csv, o.json} \ {""}
  IN UNION {(IF r.files[n].kept THEN {} ELSE {"earlier-content-lost"})
            \cup (IF n \notin targets /\ r.files[n].grew THEN {"other-file-changed"} ELSE {})
            \cup (IF r.files[n].exists = (n \in After(ex, o)) THEN {} ELSE {"file-existence"}) : n \in DOMAIN r.files}
     \cup (IF o.csv # "" THEN CsvClauses(o.csv \in ex, m, r.files[o.csv].csv) ELSE {})
     \cup (IF o.json # "" THEN JsonClauses(m, r.files[o.json].json) ELSE {})
     \cup ConsoleClauses(o, m, r.console)
     \cup (IF Len(r.others) > 0 THEN {"stray-file"} ELSE {})
==============================================================================
