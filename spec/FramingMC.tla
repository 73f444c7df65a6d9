------------------------------- MODULE FramingMC -------------------------------
(* Exhaustive: laying windows over a signal one hop at a time.               *)
EXTENDS Spectro
CONSTANTS MaxN
VARIABLES n, size, hop, pos, cols
vars == <<n, size, hop, pos, cols>>
Init == n \in 1..MaxN /\ size \in 1..12 /\ hop \in 1..6 /\ n > size /\ pos = 0 /\ cols = 0
Frame == pos + size <= n /\ pos' = pos + hop /\ cols' = cols + 1 /\ UNCHANGED <<n, size, hop>>
Spec == Init /\ [][Frame]_vars
InRange == cols > 0 => (cols - 1) * hop + size <= n
Complete == ~ENABLED Frame => cols * hop + size > n
Counted == ~ENABLED Frame => cols = Columns(n, size, hop)
==============================================================================
