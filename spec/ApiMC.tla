-------------------------------- MODULE ApiMC --------------------------------
(* Every configuration, and every short order of creating and measuring.     *)
EXTENDS Lifecycle, Json
CONSTANTS MaxOps, Small
VARIABLES st, hist
vars == <<st, hist>>
B == BOOLEAN
Sub(r, ks) == [k \in ks |-> r[k]]
AllOpts == [speech : B, override : B, model : {"good", "other", "missing", "junk"}, lattice : B, radius : {-3, 1, 7, 20}, unscaled : {TRUE}]
SomeOpts == IF Small THEN {Sub(r, ks) : r \in {q \in AllOpts : q.model = "missing"}, ks \in {{}, {"speech"}, {"model"}, {"speech", "override"}, {"override"}}}
            ELSE {Sub(r, ks) : r \in AllOpts, ks \in SUBSET {"speech", "override", "model", "lattice", "radius", "unscaled"}}
Rates == IF Small THEN {8000, 48000} ELSE {-8000, 0, 8000, 48000, 48001, 96000}
Cfgs == {[options |-> x] : x \in SomeOpts} \cup {[rate |-> r] : r \in Rates} \cup {[emptyaudio |-> TRUE]}
        \cup {[rate |-> r, options |-> x] : r \in Rates, x \in SomeOpts}
Creates == [f : {"create"}, cfg : Cfgs, dflt : IF Small THEN {TRUE} ELSE B]
Kind(c) == CASE ~("model" \in DOMAIN Opts(c.cfg)) -> "missing"
             [] c.cfg.options.model = "good" -> (IF Speech(c.cfg) THEN "lattice" ELSE "svr")
             [] c.cfg.options.model = "other" -> (IF Speech(c.cfg) THEN "svr" ELSE "lattice")
             [] OTHER -> c.cfg.options.model
Init == st = Unusable /\ hist = <<>>
Next == Len(hist) < MaxOps /\
  \/ \E c \in Creates : /\ st' = IF CreateOk(c.cfg, Kind(c), c.dflt) THEN Usable(Derived(c.cfg, "A", "S")) ELSE Unusable
                        /\ hist' = Append(hist, [c EXCEPT !.f = "create"])
  \/ (Small /\ st' = st /\ hist' = Append(hist, [f |-> "measure"]))
Spec == Init /\ [][Next]_vars
NeverWithoutRate == st.usable => "rate" \in DOMAIN hist[CHOOSE i \in 1..Len(hist) : hist[i].f = "create" /\ \A j \in (i + 1)..Len(hist) : hist[j].f # "create"].cfg
AudioNeeds48kUnlessOverridden == st.usable /\ ~st.opt.speech =>
   LET c == hist[CHOOSE i \in 1..Len(hist) : hist[i].f = "create" /\ \A j \in (i + 1)..Len(hist) : hist[j].f # "create"].cfg
   IN c.rate = 48000 \/ Opts(c).override
RadiusNeverZero == st.usable => st.opt.radius \in {-3, 1, 7, 20, 60}
Case == (Len(hist) = MaxOps) => PrintT(ToJson([ops |-> hist]))
==============================================================================
