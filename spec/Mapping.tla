------------------------------- MODULE Mapping -------------------------------
(***************************************************************************)
(* From similarity to quality with trained models: the support-vector model *)
(* (audio mode) and the lattice model (speech mode), as a machine whose     *)
(* state is what each model object currently holds.                         *)
(*                                                                          *)
(* A support-vector model is [gamma, rho, coef, sv]; its decision function  *)
(* is the sum over support vectors of coef * exp(-gamma |x - sv|^2), minus  *)
(* rho, features that are absent counting as zero.                          *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, FiniteSets, TLC

At(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
SqDist(x, y) == LET n == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
                IN FSumSq([i \in 1..n |-> FSub(At(x, i), At(y, i))])
Rbf(m, x) == [k \in 1..Len(m.coef) |-> FMul(m.coef[k], FExp(FSub(0, FMul(m.gamma, SqDist(x, m.sv[k])))))]
Decision(m, x) == FSub(FSum(Rbf(m, x)), m.rho)
Quality(v) == FMax(1, FMin(5, v))

(* Training: nu-support-vector regression with these parameters.            *)
TrainC == "0.4"
TrainNu == "0.6"
TrainEps == "0.001"
TrainGamma(features) == FDiv(1, features)
(* What any solution of that problem satisfies. *)
Solution(m, samples) ==
  /\ FLe(FAbs(FSum(m.coef)), "1e-6")
  /\ \A k \in 1..Len(m.coef) : FLe(FAbs(m.coef[k]), FAdd(TrainC, "1e-9"))
  /\ FLe(FSum([k \in 1..Len(m.coef) |-> FAbs(m.coef[k])]), FAdd(FMul(FMul(TrainC, TrainNu), samples), "1e-6"))

(* The lattice model's inputs.                                              *)
Base == <<"fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy">>
LatticeNames(bands) == {Base[f] \o ToString(b) : f \in 1..4, b \in 0..(bands - 1)} \cup {"tau"}
LatticeInput(x, x10, xs, xe, bands) ==
  LET F4 == <<x, x10, xs, xe>>
      Of(n) == IF n = "tau" THEN FSingle("0.5")
               ELSE LET fb == CHOOSE q \in (1..4) \X (0..(bands - 1)) : n = Base[q[1]] \o ToString(q[2])
                    IN FSingle(F4[fb[1]][fb[2] + 1])
  IN [n \in LatticeNames(bands) |-> Of(n)]

(***************************************************************************)
(* The machine.  State: what each object slot holds; None, or a model       *)
(* identified by what it was made from.                                     *)
(***************************************************************************)
None == [held |-> "none"]
HeldAfter(s, o) ==
  CASE o.f \in {"new", "free"} -> [s EXCEPT ![o.o] = None]
    [] o.f \in {"load", "mapper"} -> [s EXCEPT ![o.o] = IF o.file = 0 THEN None ELSE [held |-> o.f, file |-> o.file]]
    [] o.f = "train" -> [s EXCEPT ![o.o] = [held |-> "train", file |-> o.set]]
    [] o.f = "lattice" -> [s EXCEPT ![o.o] = IF o.file = 0 THEN None ELSE [held |-> "lattice", file |-> o.file]]
    [] OTHER -> s
CodeOf(o) == IF o.file = 0 THEN "INVALID_ARGUMENT" ELSE "OK"
==============================================================================
