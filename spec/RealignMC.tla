------------------------------- MODULE RealignMC -------------------------------
(* Exhaustive: realigning every list of coarse results, one patch per step.  *)
(* Times are in samples at rate 1, so that the invariants are integer facts. *)
EXTENDS PatchMatch, Json
CONSTANTS MaxLen, L          \* longest list; patch length in samples
VARIABLES todo, done
vars == <<todo, done>>
Kinds == {"unmatched", "better", "equal", "worse"}
Lags == {-2, 0, 3}
Items == [kind : Kinds, lag : Lags]
Init == todo \in UNION {[1..k -> Items] : k \in 0..MaxLen} /\ done = <<>>

Coarse(i, it) == [rs |-> 10 * i, re |-> 10 * i + L,
                  ds |-> IF it.kind = "unmatched" THEN 0 ELSE 10 * i + 1,
                  de |-> IF it.kind = "unmatched" THEN 0 ELSE 10 * i + 1 + L,
                  sim |-> IF it.kind = "unmatched" THEN 0 ELSE 5]
NewSim(it) == CASE it.kind = "better" -> 7 [] it.kind = "worse" -> 3 [] OTHER -> 5
Abs(x) == IF x < 0 THEN -x ELSE x
Al(it) == [lag |-> it.lag, nref |-> L - Abs(it.lag), ndeg |-> L - Abs(it.lag)]
\* one patch
Step(i, it) ==
  LET c == [coarse |-> <<Coarse(i, it)>>, newsim |-> <<NewSim(it)>>, rate |-> 1]
      e == Realigned(c, <<Al(it)>>, 1)
  IN IF e.kind = "new" THEN e ELSE [e EXCEPT !.kind = @] @@ Coarse(i, it)
Realign == /\ Len(done) < Len(todo)
           /\ done' = Append(done, Step(Len(done) + 1, todo[Len(done) + 1]))
           /\ UNCHANGED todo
Spec == Init /\ [][Realign]_vars

N(x) == x  \* readability
PerPatch ==
  \A i \in DOMAIN done :
    LET d == done[i] o == Coarse(i, todo[i]) IN
    /\ FLe(o.sim, d.sim)
    /\ (todo[i].kind = "unmatched") = (d.kind = "untouched")
    /\ d.kind # "new" => d.rs = o.rs /\ d.re = o.re /\ d.ds = o.ds /\ d.de = o.de /\ d.sim = o.sim
    \* the two segments have the same duration, the pieces are offset by the lag,
    \* and both lie inside the coarse segments
    /\ d.kind = "new" =>
         /\ FEq(FSub(d.re, d.rs), FSub(d.de, d.ds))
         /\ FEq(FSub(FSub(d.rs, o.rs), FSub(d.ds, o.ds)), todo[i].lag)
         /\ FLe(o.rs, d.rs) /\ FLe(d.re, o.re) /\ FLe(o.ds, d.ds) /\ FLe(d.de, o.de)
Ordered == \A i, j \in DOMAIN done : i < j => FLe(done[i].rs, done[j].rs)
Case == (done = <<>>) => PrintT(ToJson([items |-> todo]))
==============================================================================
