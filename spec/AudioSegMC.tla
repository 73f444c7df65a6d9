------------------------------ MODULE AudioSegMC ------------------------------
(* Exhaustive over spectrogram and patch lengths: the tiling invariants, as  *)
(* the patches are laid down one by one.                                     *)
EXTENDS Segmentation, Json
CONSTANTS MaxN, MaxP
VARIABLES n, p, m, starts
vars == <<n, p, m, starts>>
Init == n \in 0..MaxN /\ p \in 2..MaxP /\ m = FirstMark(p) /\ starts = <<>>
Place == /\ Fits(n, p)
         /\ \/ m < n - p                       \* room for another
            \/ starts = <<>>                   \* the one that fits anyway
         /\ starts' = Append(starts, m - 1) /\ m' = m + p
         /\ UNCHANGED <<n, p>>
Spec == Init /\ [][Place]_vars
Full == Fits(n, p) /\ ~ENABLED Place
Tiles == /\ \A i \in 1..Len(starts) : starts[i] = p \div 2 - 1 + (i - 1) * p
         /\ \A i \in 1..Len(starts) : starts[i] >= 0 /\ starts[i] + p <= n
Complete == Full => /\ starts = AudioStarts(n, p) /\ Len(starts) >= 1
                    /\ LET nx == starts[Len(starts)] + p IN nx + p + 1 > n - 0 - 0 \/ nx + 1 >= n - p
Case == (starts = <<>>) => PrintT(ToJson([n |-> n, p |-> p]))
==============================================================================
