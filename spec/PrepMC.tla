-------------------------------- MODULE PrepMC --------------------------------
(* Exhaustive over small spectrograms with values on, above and below every  *)
(* floor: what preparation promises.                                         *)
EXTENDS Spectro, Json
CONSTANTS MaxCols, Bands
VARIABLES ref, deg, step
vars == <<ref, deg, step>>
\* 0 dB, -45 dB exactly, just below, far below, nothing, above
Values == {"0", "1", "0.0001", "1000"}
FramesOf(k) == [1..k -> [1..Bands -> Values]]
Small(S) == S
Init == /\ step = 0
        /\ \E k \in 1..MaxCols, m \in 1..1 : ref \in FramesOf(k) /\ deg \in FramesOf(m)
Db2 == step = 0 /\ step' = 1 /\ ref' = ToDb(ref) /\ deg' = ToDb(deg)
Clip == step = 1 /\ step' = 2 /\ ref' = Cut(ref, deg) /\ deg' = Cut(deg, ref)
Shift == step = 2 /\ step' = 3 /\ LET lo == FMin(Lowest(ref), Lowest(deg))
                                  IN ref' = Sub(ref, lo) /\ deg' = Sub(deg, lo)
Next == Db2 \/ Clip \/ Shift
Spec == Init /\ [][Next]_vars

NonNegative == step = 3 => AllNonNeg(ref) /\ AllNonNeg(deg)
SmallestZero == step = 3 => FEq(FMin(Lowest(ref), Lowest(deg)), 0)
Swaps == step = 0 => LET a == Prepare(ref, deg) b == Prepare(deg, ref) IN a[1] = b[2] /\ a[2] = b[1]
\* within a common frame nothing is more than 45 dB below the loudest value
FloorsHold == step = 3 =>
  \A k \in 1..Len(ref) : k <= Len(deg) =>
    LET top == FMax(FSeqMax(ref[k]), FSeqMax(deg[k])) IN
    \A b \in 1..Bands : FLe(FSub(top, "45.000000001"), ref[k][b]) /\ FLe(FSub(top, "45.000000001"), deg[k][b])
\* order of magnitude between any two values of a frame is never reversed
OrderKept == step = 0 =>
  LET p == Prepare(ref, deg) IN
  \A k \in 1..Len(ref) : \A b, q \in 1..Bands :
     FLt(ref[k][b], ref[k][q]) /\ ~FEq(ref[k][b], 0) => FLe(p[1][k][b], p[1][k][q])
Case == step = 0 => PrintT(ToJson([ref |-> ref, deg |-> deg]))
==============================================================================
