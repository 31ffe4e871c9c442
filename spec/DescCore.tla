------------------------------ MODULE DescCore ------------------------------
(***************************************************************************)
(* Descriptions of component sets, abstractly: a description is the set of *)
(* its component ids.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT MaxKinds
Range(f) == {f[x] : x \in DOMAIN f}
Describable(ids) == Len(ids) > 0 /\ Len(ids) <= MaxKinds /\ Cardinality(Range(ids)) = Len(ids)
CanAdd(S, k) == k \notin S /\ Cardinality(S) < MaxKinds
CanRemove(S, k) == k \in S /\ Cardinality(S) > 1
Includes(S, R) == R \subseteq S
Excludes(S, R) == R \cap S = {}
=============================================================================
