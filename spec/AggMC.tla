-------------------------------- MODULE AggMC --------------------------------
(* Exhaustive over small lists of patches, accumulated one by one.           *)
EXTENDS Similarity, Json
CONSTANTS MaxPatches
VARIABLES p
Patch == [means : {<<"0.25">>, <<"0.5">>, <<"1">>}, stds : {<<"0">>, <<"0.125">>},
          energy : {<<"3">>}, rs : {0}, re : {1, 2}]
Init == p \in [1..1 -> Patch]
AddPatch == Len(p) < MaxPatches /\ \E x \in Patch : p' = Append(p, x)
Spec == Init /\ [][AddPatch]_p
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
fd == "0.25"
Close(a, b) == FLe(FAbs(FSub(a, b)), "1e-12")
OrderFree == \A i, j \in 1..Len(p) : LET q == Swap(p, i, j) IN
  /\ Close(Mean(p, Means, 1), Mean(q, Means, 1))
  /\ Quantile(p, 1, 10) = Quantile(q, 1, 10)
  /\ Close(PooledVar(p, 1, fd, 0), PooledVar(q, 1, fd, 0))
QuantileBounds == /\ FLe(Quantile(p, 1, 10), Mean(p, Means, 1))
                  /\ FLe(FSeqMin([i \in 1..Len(p) |-> p[i].means[1]]), Quantile(p, 1, 10))
DeviationDefined == FLe(0, Pooled(p, 1, fd, 0))
Case == PrintT(ToJson([p |-> p]))
==============================================================================
