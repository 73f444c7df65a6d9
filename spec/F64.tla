-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* Real-number arithmetic for TLC.  TLC's integers are 32-bit, so the parts *)
(* of ViSQOL that compute with reals are specified with these operators,    *)
(* evaluated by TLC in IEEE-754 double precision (lib/java/F64.java).       *)
(* A "number" is an integer, a decimal string, or what an operator returns. *)
(* The TLA+ definitions below are only the declarations TLC overrides.      *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
F(a) == CHOOSE x : TRUE
FAdd(a, b) == CHOOSE x : TRUE
FSub(a, b) == CHOOSE x : TRUE
FMul(a, b) == CHOOSE x : TRUE
FDiv(a, b) == CHOOSE x : TRUE
FMax(a, b) == CHOOSE x : TRUE
FMin(a, b) == CHOOSE x : TRUE
FAbs(a) == CHOOSE x : TRUE
FSqrt(a) == CHOOSE x : TRUE
FLog10(a) == CHOOSE x : TRUE
FLn(a) == CHOOSE x : TRUE
FExp(a) == CHOOSE x : TRUE
FPow(a, b) == CHOOSE x : TRUE
FSin(a) == CHOOSE x : TRUE
FCos(a) == CHOOSE x : TRUE
FSingle(a) == CHOOSE x : TRUE
FLt(a, b) == CHOOSE x : TRUE
FLe(a, b) == CHOOSE x : TRUE
FEq(a, b) == CHOOSE x : TRUE
FFinite(a) == CHOOSE x : TRUE
FNear(a, b, tol) == CHOOSE x : TRUE
FFloor(a) == CHOOSE x : TRUE
FCeil(a) == CHOOSE x : TRUE
FTrunc(a) == CHOOSE x : TRUE
FRound(a) == CHOOSE x : TRUE
FStr(a) == CHOOSE x : TRUE
FSum(s) == CHOOSE x : TRUE
FSumSq(s) == CHOOSE x : TRUE
FDot(s, t) == CHOOSE x : TRUE
FSeqMax(s) == CHOOSE x : TRUE
FSeqMin(s) == CHOOSE x : TRUE
FSorted(s) == CHOOSE x : TRUE
FScale(s, k) == CHOOSE x : TRUE
FSeqNear(s, t, tol) == CHOOSE x : TRUE

(* Derived, in TLA+ proper. *)
FMean(s) == FDiv(FSum(s), Len(s))
FGt(a, b) == FLt(b, a)
FGe(a, b) == FLe(b, a)
FIn(a, lo, hi) == FLe(lo, a) /\ FLe(a, hi)
=============================================================================
