------------------------------- MODULE XcorrMC -------------------------------
(* Exhaustive over pairs of short signals, the second being moved.           *)
EXTENDS Align
CONSTANTS N
VARIABLES a, b, moved
vars == <<a, b, moved>>
S == {-1, 0, 2}
Init == a \in [1..N -> S] /\ b = a /\ moved = 0
MoveLater == moved < N - 1 /\ b' = <<0>> \o b /\ moved' = moved + 1 /\ UNCHANGED a
Disturb == moved = 0 /\ b = a /\ b' \in [1..N -> S] /\ b' # a /\ moved' = N + 1 /\ UNCHANGED a
Spec == Init /\ [][MoveLater \/ Disturb]_vars
Silent == \A i \in 1..N : a[i] = 0
AutoCorrelationPeaksAtZero == (moved = 0 /\ ~Silent) => BestLags(a, b) = {0}
ShiftFound == (moved \in 1..N /\ ~Silent) => BestLags(a, b) = {-moved}
Mirrored == BestLags(b, a) = {-L : L \in BestLags(a, b)}
==============================================================================
