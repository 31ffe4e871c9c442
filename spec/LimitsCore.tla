---------------------------- MODULE LimitsCore ----------------------------
(***************************************************************************)
(* Populations of a registry near its limits, counted.                     *)
(*                                                                         *)
(* EcsCore says what every call does to every entity; here the entities    *)
(* are only counted, so that 16,777,215 of them and 65,534 component sets  *)
(* are within TLC's reach.  The state consists of cohorts (entities that   *)
(* were created together and have the same component kinds) and of the     *)
(* component sets that were in use at any time.                            *)
(*                                                                         *)
(* Single steps are defined first; the bulk operations the recorded        *)
(* executions consist of are closed formulas, and module Limits checks     *)
(* that they equal the iteration of single steps.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxEnt,     \* entities alive at once
          MaxSets,    \* component sets
          MaxKinds    \* kinds in one set

\* coh: cohorts <<kinds, count>>; ex: component sets in use, listed; fam: families of component sets,
\* each <<first kind, further kinds that are all in use, number of sets that were new, further kinds
\* tried>>.  The second and the fourth differ (the second is empty) for a family cut short by the limit.
Fresh0 == [coh |-> << >>, ex |-> {}, fam |-> << >>]

RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)

Live(S) == SumOver([i \in DOMAIN S.coh |-> S.coh[i][2]], Len(S.coh))
SetCount(S) == Cardinality(S.ex) + SumOver([i \in DOMAIN S.fam |-> S.fam[i][3]], Len(S.fam))

MinN(a, b) == IF a < b THEN a ELSE b

\* The number of i-element subsets of an n-element set, exactly.
RECURSIVE Choose(_, _)
Choose(n, i) == IF i = 0 THEN 1 ELSE IF i > n THEN 0 ELSE (Choose(n, i - 1) * (n - i + 1)) \div i
\* The number of members of a family with n further kinds.
FamSize(n) == LET m == MinN(n, MaxKinds - 1) IN SumOver([i \in 1..m |-> Choose(n, i)], m) + 1

InFam(f, ks) == f[1] \in ks /\ ks \subseteq ({f[1]} \cup f[2]) /\ Cardinality(ks) <= MaxKinds
Known(S, ks) == ks \in S.ex \/ \E i \in DOMAIN S.fam : InFam(S.fam[i], ks)
\* Sets of a family that was cut short may or may not be in use: scripts leave them alone.
Vague(S, ks) == ~Known(S, ks) /\ \E i \in DOMAIN S.fam :
                    S.fam[i][2] /= S.fam[i][4] /\ InFam(<<S.fam[i][1], S.fam[i][4]>>, ks)
Use(S, ks) == IF Known(S, ks) THEN S ELSE [S EXCEPT !.ex = @ \cup {ks}]

----------------------------------------------------------------------------
(* Single steps.  A component set is usable when it is known or when there  *)
(* is room for another one.                                                 *)

Usable(S, ks) == Known(S, ks) \/ SetCount(S) < MaxSets

CanCreate(S, ks) == ks /= {} /\ Cardinality(ks) <= MaxKinds /\ Live(S) < MaxEnt /\ Usable(S, ks)
CanAdd(S, ks, k) == k \notin ks /\ Cardinality(ks) < MaxKinds /\ Usable(S, ks \cup {k})
CanTake(S, ks, k) == k \in ks /\ ks /= {k} /\ Usable(S, ks \ {k})

----------------------------------------------------------------------------
(* Bulk operations: the state after and how many single steps succeeded     *)

\* n creations; they form a new cohort.
FillOk(S, ks, n) ==
    IF ks = {} \/ Cardinality(ks) > MaxKinds \/ ~Usable(S, ks) THEN 0 ELSE MinN(n, MaxEnt - Live(S))
AfterFill(S, ks, n) ==
    LET ok == FillOk(S, ks, n)
        S2 == IF ok > 0 THEN Use(S, ks) ELSE S
    IN  [S2 EXCEPT !.coh = Append(@, <<ks, ok>>)]

\* Every stride-th live entity, starting with the off-th, in the order of the cohorts.
Upto(x, stride, off) == IF x <= off THEN 0 ELSE (x - off + stride - 1) \div stride
DestroyedOf(S, i, stride, off) ==
    LET before == SumOver([j \in DOMAIN S.coh |-> S.coh[j][2]], i - 1)
    IN  Upto(before + S.coh[i][2], stride, off) - Upto(before, stride, off)
AfterDestroy(S, stride, off) ==
    [S EXCEPT !.coh = [i \in DOMAIN @ |-> <<@[i][1], @[i][2] - DestroyedOf(S, i, stride, off)>>]]
DestroyedTotal(S, stride, off) == Upto(Live(S), stride, off)

\* n times: create one entity and destroy it.
CycleOk(S, ks, n) == IF CanCreate(S, ks) THEN n ELSE 0
AfterCycle(S, ks, n) == IF n > 0 /\ CanCreate(S, ks) THEN Use(S, ks) ELSE S

\* n times: create m entities, then end them all.
WavesOk(S, ks, m, n) == n * FillOk(S, ks, m)
AfterWaves(S, ks, m, n) == IF n > 0 /\ FillOk(S, ks, m) > 0 THEN Use(S, ks) ELSE S

\* One component added to (removed from) every entity of a cohort.
ChangeOk(S, c, k, add) ==
    LET ks == S.coh[c][1] IN
    IF (IF add THEN CanAdd(S, ks, k) ELSE CanTake(S, ks, k)) THEN S.coh[c][2] ELSE 0
AfterChange(S, c, k, add) ==
    IF ChangeOk(S, c, k, add) = 0 THEN S
    ELSE LET ks == IF add THEN S.coh[c][1] \cup {k} ELSE S.coh[c][1] \ {k}
         IN  [Use(S, ks) EXCEPT !.coh[c] = <<ks, @[2]>>]

\* One entity of every cohort loses component k if it has it and gets it if not, and is changed back:
\* any two of these entities in turn, the second between the two changes of the first.
Flipped(ks, k) == IF k \in ks THEN ks \ {k} ELSE ks \cup {k}
Flippable(S, k) ==
    {i \in DOMAIN S.coh : LET to == Flipped(S.coh[i][1], k) IN
                          S.coh[i][2] > 0 /\ to /= {} /\ Cardinality(to) <= MaxKinds}
FlipCohorts(S) == Cardinality({i \in DOMAIN S.coh : S.coh[i][2] > 0})
\* The sets this calls for; where they do not all fit the order would matter, and scripts do not ask.
FlipSets(S, k) == IF FlipCohorts(S) < 2 THEN {} ELSE
                  {ks \in {Flipped(S.coh[i][1], k) : i \in Flippable(S, k)} : ~Known(S, ks)}
FlipsFit(S, k) == SetCount(S) + Cardinality(FlipSets(S, k)) <= MaxSets
FlipsOk(S, k) == IF FlipCohorts(S) < 2 THEN 0 ELSE 2 * (FlipCohorts(S) - 1) * Cardinality(Flippable(S, k))
AfterFlips(S, k) == [S EXCEPT !.ex = @ \cup FlipSets(S, k)]

\* A whole cohort taken out with a group.
TakeAllOk(S, c, g) == IF S.coh[c][1] = g THEN S.coh[c][2] ELSE 0
AfterTakeAll(S, c, g) == IF S.coh[c][1] = g THEN [S EXCEPT !.coh[c][2] = 0] ELSE S

\* One entity with the single kind first is taken through every set that contains first and some of
\* the other kinds, depth first.  Whenever a new set is needed and there is no room, the step is
\* refused.  What was reached is known exactly when everything was reached, or when nothing beside
\* {first} was known before.
WalkCovered(S, first, rest) == \E i \in DOMAIN S.fam : S.fam[i][1] = first /\ rest \subseteq S.fam[i][2]
WalkNew(S, first, rest) ==          \* sets of the family not yet in use
    LET f == <<first, rest>> IN
    IF WalkCovered(S, first, rest) THEN 0 ELSE
    FamSize(Cardinality(rest)) - Cardinality({ks \in S.ex : InFam(f, ks)})
\* Scripts keep families apart (no set belongs to two of them), or repeat them.
WalkApart(S, first, rest) ==
    \/ WalkCovered(S, first, rest)
    \/ \A i \in DOMAIN S.fam : \/ S.fam[i][1] \notin {first} \cup rest
                            \/ first \notin {S.fam[i][1]} \cup S.fam[i][4]
WalkRoom(S) == MaxSets - SetCount(S)
WalkComplete(S, first, rest) == WalkNew(S, first, rest) <= WalkRoom(S)
WalkPlain(S, first, rest) == {ks \in S.ex : InFam(<<first, rest>>, ks)} = {{first}}
\* Sets reached, the first one included.
WalkVisits(S, first, rest) ==
    IF WalkComplete(S, first, rest) THEN FamSize(Cardinality(rest)) ELSE 1 + WalkRoom(S)
AfterWalk(S, first, rest) ==
    LET full == WalkComplete(S, first, rest) IN
    [S EXCEPT !.fam = Append(@, <<first, IF full THEN rest ELSE {},
                                  MinN(WalkNew(S, first, rest), WalkRoom(S)), rest>>)]
=============================================================================
