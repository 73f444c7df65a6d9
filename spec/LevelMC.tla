------------------------------- MODULE LevelMC -------------------------------
(* Exhaustive over short signals under a volume control: turning it never    *)
(* changes what is compared.                                                 *)
EXTENDS Similarity, Json
CONSTANTS Gains, N
Samples == {-2, 0, 1}
VARIABLES ref, deg, gain, turns
vars == <<ref, deg, gain, turns>>
Sigs == UNION {[1..n -> Samples] : n \in 1..N}
Init == ref \in Sigs /\ deg \in Sigs /\ gain = F(1) /\ turns = 0
Turn == turns < 2 /\ \E g \in Gains : gain' = FMul(gain, g) /\ turns' = turns + 1 /\ UNCHANGED <<ref, deg>>
Spec == Init /\ [][Turn]_vars
Now == Matched(ref, FScale(deg, gain))
SameAsUntouched == FSeqNear(Now, Matched(ref, deg), "1e-12")
PowerOfReference == Silent(deg) \/ FNear(Power(Now), Power(ref), "1e-12")
SilenceKept == Silent(deg) => Silent(Now)
Case == turns = 0 => PrintT(ToJson([r |-> ref, d |-> deg]))
==============================================================================
