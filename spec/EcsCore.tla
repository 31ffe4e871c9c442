------------------------------ MODULE EcsCore ------------------------------
(***************************************************************************)
(* What a user of the Shard entity-component registry may rely on, written *)
(* as operators on the abstract state of ONE registry:                     *)
(*                                                                         *)
(*   S.live : handle -> component set, where a handle is <<slot, version>> *)
(*            and a component set is a set of <<kind, value>> pairs with   *)
(*            at most one pair per kind                                    *)
(*   S.iss  : slot -> the versions most recently issued for it (the last   *)
(*            VMod-1 at most), oldest first                                *)
(*   S.bombed : whether a component destructor has panicked                *)
(*                                                                         *)
(* Nothing here mentions rows, columns, archetypes or free lists: the      *)
(* module is shared by the abstract machine Ecs.tla (model-checked), by    *)
(* the implementation-shaped machine EcsImpl.tla (which refines it) and by *)
(* EcsTrace.tla (which judges executions recorded from the real code).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxComp,   \* components per entity (14)
          MaxEnt,    \* simultaneously live entities (2^24 - 1)
          VMod       \* versions per slot (256)

Range(s) == {s[i] : i \in DOMAIN s}
MinOf(a, b) == IF a <= b THEN a ELSE b

----------------------------------------------------------------------------
(* Component sets and groups *)

KindsOf(c) == {p[1] : p \in c}
ValueOf(c, k) == (CHOOSE p \in c : p[1] = k)[2]
Zip(g, v) == {<<g[i], v[i]>> : i \in 1..MinOf(Len(g), Len(v))}
\* A group is a sequence of kinds; it denotes a set only if nothing repeats.
Repeats(g) == Cardinality(Range(g)) /= Len(g)
ValidGroup(g) == Len(g) \in 1..MaxComp /\ ~Repeats(g)
\* The values of component set c in the order group g lists the kinds.
InOrder(c, g) == [i \in 1..Len(g) |-> ValueOf(c, g[i])]
Put(c, k, v) == {p \in c : p[1] /= k} \cup {<<k, v>>}
PutAll(c, g, v) == {p \in c : p[1] \notin Range(g)} \cup Zip(g, v)

----------------------------------------------------------------------------
(* State *)

Empty == [live |-> << >>, iss |-> << >>, bombed |-> FALSE]
Handles(S) == DOMAIN S.live
IsLive(S, h) == h \in DOMAIN S.live
Issued(S, slot) == IF slot \in DOMAIN S.iss THEN S.iss[slot] ELSE << >>

\* A handle creation may return: its slot has no live entity, and the last VMod-1 entities of the
\* slot had other handles.
Fresh(S, h) ==
    /\ h[2] \in 0..(VMod - 1)
    /\ \A x \in DOMAIN S.live : x[1] /= h[1]
    /\ h[2] \notin Range(Issued(S, h[1]))

Remember(s, v) ==
    LET t == Append(s, v)
    IN  IF Len(t) > VMod - 1 THEN SubSeq(t, Len(t) - VMod + 2, Len(t)) ELSE t

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

----------------------------------------------------------------------------
(* Effects.  Each gives the state after an operation that succeeded. *)

AfterCreate(S, h, c) ==
    [S EXCEPT !.live = (h :> c) @@ @,
              !.iss = (h[1] :> Remember(Issued(S, h[1]), h[2])) @@ @]
AfterEnd(S, h) == [S EXCEPT !.live = Without(@, h)]
AfterBomb(S, h) == [AfterEnd(S, h) EXCEPT !.bombed = TRUE]
AfterSet(S, h, c) == [S EXCEPT !.live[h] = c]

----------------------------------------------------------------------------
(* When operations succeed *)

CreateSucceeds(S, g) == ValidGroup(g) /\ Cardinality(DOMAIN S.live) < MaxEnt
RemoveSucceeds(S, h, g) == IsLive(S, h) /\ ValidGroup(g) /\ KindsOf(S.live[h]) = Range(g)
AddSucceeds(S, h, k) ==
    IsLive(S, h) /\ k \notin KindsOf(S.live[h]) /\ Cardinality(S.live[h]) < MaxComp
TakeSucceeds(S, h, k) ==
    IsLive(S, h) /\ k \in KindsOf(S.live[h]) /\ Cardinality(S.live[h]) > 1
Has(S, h, k) == IsLive(S, h) /\ k \in KindsOf(S.live[h])
HasAll(S, h, g) == IsLive(S, h) /\ ValidGroup(g) /\ Range(g) \subseteq KindsOf(S.live[h])

----------------------------------------------------------------------------
(* Queries.  The predicates of filtered iteration look at the component     *)
(* kinds of an entity only.                                                *)

Satisfies(ks, p) ==
    LET a == p[2] IN
    CASE p[1] \in {"none", "all", "bang"} -> TRUE   \* "bang" panics at some time, and says yes before
      [] p[1] = "nothing" -> FALSE
      [] p[1] = "has" -> a[1] \in ks
      [] p[1] = "lacks" -> a[1] \notin ks
      [] p[1] = "leneq" -> Cardinality(ks) = a[1]
      [] p[1] = "lenle" -> Cardinality(ks) <= a[1]
      [] p[1] = "contains" -> Range(a) \subseteq ks
      [] p[1] = "excludes" -> Range(a) \cap ks = {}
      [] OTHER -> FALSE

\* The entities a query reaches.
Reached(S, mode, g, p) ==
    IF ~ValidGroup(g) THEN {}
    ELSE LET gs == Range(g) IN
         {h \in DOMAIN S.live :
            LET ks == KindsOf(S.live[h]) IN
            CASE mode = "match" -> gs \subseteq ks
              [] mode = "filt"  -> gs \subseteq ks /\ Satisfies(ks, p)
              [] mode = "exact" -> gs = ks
              [] OTHER -> FALSE}

\* The rows of the query with handles ...
RowSet(S, hs, g) == {<<h, InOrder(S.live[h], g)>> : h \in hs}
\* ... and without, as a function from value tuples to multiplicities.
RowBag(S, hs, g) ==
    LET rows == [h \in hs |-> InOrder(S.live[h], g)]
    IN  [t \in Range(rows) |-> Cardinality({h \in hs : rows[h] = t})]
BagOf(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]

\* Mutable iteration in the recorded executions replaces each value v of kind k it reaches by
\* (v+1) modulo the number of values of the kind.
AfterBump(S, hs, g, dom) ==
    [S EXCEPT !.live =
        [h \in DOMAIN @ |->
            IF h \in hs
            THEN {IF p[1] \in Range(g) THEN <<p[1], (p[2] + 1) % dom[p[1]]>> ELSE p : p \in @[h]}
            ELSE @[h]]]
=============================================================================
