------------------------------ MODULE Limits ------------------------------
(***************************************************************************)
(* The limits, as a machine small enough to enumerate: at every reachable  *)
(* state the closed formulas of LimitsCore equal the iteration of single   *)
(* steps, a step is refused only at a limit, and room returns.             *)
(***************************************************************************)
EXTENDS LimitsCore, Integers

CONSTANTS Kinds, MaxCoh, MaxN

VARIABLES S
vars == <<S>>

NonEmpty == SUBSET Kinds \ {{}}

Init == S = Fresh0

\* The machine the formulas are checked on takes single steps only.
CreateNew(ks) == /\ Len(S.coh) < MaxCoh
                 /\ S' = IF CanCreate(S, ks)
                         THEN [Use(S, ks) EXCEPT !.coh = Append(@, <<ks, 1>>)]
                         ELSE [S EXCEPT !.coh = Append(@, <<ks, 0>>)]
CreateMore(c) == /\ c \in DOMAIN S.coh
                 /\ S' = IF CanCreate(S, S.coh[c][1])
                         THEN [Use(S, S.coh[c][1]) EXCEPT !.coh[c][2] = @ + 1] ELSE S
Destroy(c) == c \in DOMAIN S.coh /\ S.coh[c][2] > 0 /\ S' = [S EXCEPT !.coh[c][2] = @ - 1]
Add(c, k) == c \in DOMAIN S.coh /\ S.coh[c][2] = 1 /\ S' = AfterChange(S, c, k, TRUE)
Take(c, k) == c \in DOMAIN S.coh /\ S.coh[c][2] = 1 /\ S' = AfterChange(S, c, k, FALSE)

Next == \/ \E ks \in NonEmpty : CreateNew(ks)
        \/ \E c \in 1..MaxCoh : CreateMore(c) \/ Destroy(c)
        \/ \E c \in 1..MaxCoh, k \in Kinds : Add(c, k) \/ Take(c, k)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOk == /\ Live(S) \in 0..MaxEnt
          /\ SetCount(S) \in 0..MaxSets
          /\ \A c \in DOMAIN S.coh : S.coh[c][2] > 0 => Known(S, S.coh[c][1])

\* Refusals happen at the limits only, and destroying one entity makes room.
RefusedOnlyAtLimits ==
    \A ks \in NonEmpty : Cardinality(ks) <= MaxKinds =>
        \/ CanCreate(S, ks)
        \/ Live(S) = MaxEnt
        \/ SetCount(S) = MaxSets /\ ~Known(S, ks)
RoomReturns ==
    \A ks \in NonEmpty : Cardinality(ks) <= MaxKinds /\ Known(S, ks) /\ Live(S) > 0 =>
        CanCreate(AfterDestroy(S, MaxEnt + 1, 0), ks)
ExistingSetsKeepWorking ==
    \A c \in DOMAIN S.coh : \A k \in Kinds :
        /\ S.coh[c][1] \cup {k} \in S.ex /\ k \notin S.coh[c][1] => ChangeOk(S, c, k, TRUE) = S.coh[c][2]
        /\ S.coh[c][1] \ {k} \in S.ex /\ k \in S.coh[c][1] => ChangeOk(S, c, k, FALSE) = S.coh[c][2]

----------------------------------------------------------------------------
(* Formulas against iteration                                               *)

RECURSIVE FillSteps(_, _, _, _)
FillSteps(T, c, ks, n) ==        \* c: the new cohort
    IF n = 0 THEN T
    ELSE FillSteps(IF CanCreate(T, ks) THEN [Use(T, ks) EXCEPT !.coh[c][2] = @ + 1] ELSE T, c, ks, n - 1)
FillRight ==
    \A ks \in NonEmpty, n \in 0..MaxN :
        LET T == [S EXCEPT !.coh = Append(@, <<ks, 0>>)]
            R == FillSteps(T, Len(T.coh), ks, n)
        IN  R = AfterFill(S, ks, n) /\ R.coh[Len(R.coh)][2] = FillOk(S, ks, n)

RECURSIVE CycleSteps(_, _, _), WaveSteps(_, _, _, _)
CycleSteps(T, ks, n) ==          \* the state, and the creations that succeeded
    IF n = 0 THEN <<T, 0>>
    ELSE LET ok == CanCreate(T, ks)
             R == CycleSteps(IF ok THEN Use(T, ks) ELSE T, ks, n - 1)
         IN  <<R[1], R[2] + IF ok THEN 1 ELSE 0>>
CycleRight ==
    \A ks \in NonEmpty, n \in 0..MaxN : CycleSteps(S, ks, n) = <<AfterCycle(S, ks, n), CycleOk(S, ks, n)>>
WaveSteps(T, ks, m, n) ==        \* created one by one as a cohort that is gone afterwards
    IF n = 0 THEN <<T, 0>>
    ELSE LET c == Len(T.coh) + 1
             F == FillSteps([T EXCEPT !.coh = Append(@, <<ks, 0>>)], c, ks, m)
             R == WaveSteps([F EXCEPT !.coh = SubSeq(@, 1, c - 1)], ks, m, n - 1)
         IN  <<R[1], R[2] + F.coh[c][2]>>
WavesRight ==
    \A ks \in NonEmpty, m \in 0..MaxN, n \in 0..2 :
        WaveSteps(S, ks, m, n) = <<AfterWaves(S, ks, m, n), WavesOk(S, ks, m, n)>>

\* Entities changed and changed back in pairs.
FlipOne(T, i, k) ==              \* the first entity of a cohort: it forms a cohort of its own at the end
    LET ks == T.coh[i][1]
        ok == IF k \in ks THEN CanTake(T, ks, k) ELSE CanAdd(T, ks, k)
    IN  IF ok THEN <<[Use(T, Flipped(ks, k)) EXCEPT !.coh = Append([@ EXCEPT ![i][2] = @ - 1], <<Flipped(ks, k), 1>>)], 1>>
        ELSE <<[T EXCEPT !.coh = Append([@ EXCEPT ![i][2] = @ - 1], <<ks, 1>>)], 0>>
BackOne(T, i, j, k) ==           \* and back into the cohort it came from, if it was changed
    LET ks == T.coh[j][1]
        ok == IF k \in ks THEN CanTake(T, ks, k) ELSE CanAdd(T, ks, k)
    IN  IF ks = T.coh[i][1] THEN [T EXCEPT !.coh = [@ EXCEPT ![i][2] = @ + 1, ![j][2] = 0]]
        ELSE IF ok THEN [Use(T, Flipped(ks, k)) EXCEPT !.coh = [@ EXCEPT ![i][2] = @ + 1, ![j][2] = 0]]
        ELSE T
FlipPair(T, i, j, k) ==
    LET n == Len(T.coh)
        A == FlipOne(T, i, k)
        B == FlipOne(A[1], j, k)
        C == BackOne(BackOne(B[1], i, n + 1, k), j, n + 2, k)
    IN  <<[C EXCEPT !.coh = SubSeq(@, 1, n)], A[2] + B[2]>>
RECURSIVE FlipSteps(_, _, _)
FlipSteps(W, ps, k) ==
    IF ps = << >> THEN W
    ELSE LET P == FlipPair(W[1], Head(ps)[1], Head(ps)[2], k) IN FlipSteps(<<P[1], W[2] + P[2]>>, Tail(ps), k)
FlipPairs(T) ==                  \* all ordered pairs of cohorts with an entity
    LET n == Len(T.coh)
        all == [q \in 1..n * n |-> <<(q - 1) \div n + 1, q - n * ((q - 1) \div n)>>]
    IN  SelectSeq(all, LAMBDA p : p[1] /= p[2] /\ T.coh[p[1]][2] > 0 /\ T.coh[p[2]][2] > 0)
FlipsRight ==
    \A k \in Kinds : FlipsFit(S, k) =>
        FlipSteps(<<S, 0>>, FlipPairs(S), k) = <<AfterFlips(S, k), FlipsOk(S, k)>>

\* Destroying by position, one position after the other.
CohortAt(T, p) ==                \* the cohort of the p-th live entity (from 0)
    CHOOSE i \in DOMAIN T.coh : LET f == [j \in DOMAIN T.coh |-> T.coh[j][2]] IN
                                SumOver(f, i - 1) <= p /\ p < SumOver(f, i)
RECURSIVE Positions(_, _, _)
Positions(n, stride, p) == IF p >= n THEN << >> ELSE <<p>> \o Positions(n, stride, p + stride)
DestroyRight ==
    \A stride \in 1..MaxN, off \in 0..MaxN :
        LET ps == Positions(Live(S), stride, off)
            hit(i) == Cardinality({x \in DOMAIN ps : CohortAt(S, ps[x]) = i})
        IN  /\ AfterDestroy(S, stride, off).coh = [i \in DOMAIN S.coh |-> <<S.coh[i][1], S.coh[i][2] - hit(i)>>]
            /\ DestroyedTotal(S, stride, off) = Len(ps)

\* The walk as a sequence of additions and removals.  W: [s |-> state, n |-> visited, ref |-> refused].
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(W, ks, rest, i) ==
    IF i > Len(rest) \/ Cardinality(ks) >= MaxKinds THEN W
    ELSE IF CanAdd(W.s, ks, rest[i])
         THEN LET in == WalkFrom([s |-> Use(W.s, ks \cup {rest[i]}), n |-> W.n + 1, ref |-> W.ref],
                                 ks \cup {rest[i]}, rest, i + 1)
              IN  WalkFrom(in, ks, rest, i + 1)
         ELSE WalkFrom([W EXCEPT !.ref = @ + 1], ks, rest, i + 1)
Orders(T) == LET n == Cardinality(T) IN {q \in [1..n -> T] : \A i, j \in 1..n : i /= j => q[i] /= q[j]}
WalkRight ==
    \A first \in Kinds : \A rest \in SUBSET (Kinds \ {first}) : \A order \in Orders(rest) :
        {first} \in S.ex =>
        LET W == WalkFrom([s |-> S, n |-> 1, ref |-> 0], {first}, order, 1)
            A == AfterWalk(S, first, rest)
        IN  \/ ~WalkComplete(S, first, rest) /\ ~WalkPlain(S, first, rest)    \* not used by scripts
            \/ /\ W.n = WalkVisits(S, first, rest)
               /\ (W.ref > 0) = ~WalkComplete(S, first, rest)
               /\ SetCount(W.s) = SetCount(A)
               /\ \A ks \in NonEmpty : Vague(A, ks) \/ Known(W.s, ks) = Known(A, ks)
               /\ LET W2 == WalkFrom([s |-> A, n |-> 1, ref |-> 0], {first}, order, 1) IN   \* again
                  WalkComplete(S, first, rest) =>
                     /\ WalkCovered(A, first, rest) /\ W2.n = WalkVisits(A, first, rest) /\ W2.ref = 0
                     /\ SetCount(AfterWalk(A, first, rest)) = SetCount(A)
=============================================================================
