------------------------------ MODULE MappingMC ------------------------------
(* The mapping walked from -0.5 to 1.5 in small steps.                       *)
EXTENDS Similarity
CONSTANTS Steps
VARIABLES k
Init == k = 0
Step == k < Steps /\ k' = k + 1
Spec == Init /\ [][Step]_k
V(i) == FSub(FDiv(FMul(2, i), Steps), "0.5")
InRange == \A s \in BOOLEAN : FIn(Mapped(V(k), s), 1, 5)
Ratio == LET s == Mapped(V(k), TRUE) u == Mapped(V(k), FALSE) IN
         (FGt(u, 1) /\ FLt(s, 5)) => FNear(FDiv(s, u), "1.245063", "1e-12")
Monotone == [][\A s \in BOOLEAN : FLe(Mapped(V(k), s), Mapped(V(k'), s))]_k
==============================================================================
