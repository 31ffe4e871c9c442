-------------------------------- MODULE Ecs --------------------------------
(***************************************************************************)
(* The registry as a user sees it: a state machine over EcsCore whose      *)
(* steps are the calls of the public interface, successful and refused.    *)
(*                                                                         *)
(* The contract of each call is stated as an action; the listed properties *)
(* are stated separately, as invariants and as formulas about every step,  *)
(* and TLC checks that the contract implies them, in every state reachable *)
(* within the constants.  EcsImpl.tla refines this machine, and EcsTrace   *)
(* judges recorded executions with the same operators.                     *)
(***************************************************************************)
EXTENDS EcsCore

CONSTANTS NKinds,  \* component types 1..NKinds
          Vals,    \* values of components
          NSlots,  \* handles have slots 0..NSlots-1
          MaxLen,  \* longest group used
          Bombs    \* whether destructors may panic

VARIABLES S,       \* the registry
          ev       \* the last call and what it returned
vars == <<S, ev>>

Kinds == 1..NKinds
Slots == 0..(NSlots - 1)
AllHandles == Slots \X (0..(VMod - 1))
\* Every handle a caller could hold, the invalid one included.
Named == AllHandles \cup {<<NSlots, VMod - 1>>}
Groups == UNION {[1..n -> Kinds] : n \in 1..MaxLen}
Drop == {k \in Kinds : TRUE}   \* every kind of the model has a destructor

Ev(op, h, g, v, ok, back, drops, over) ==
    [op |-> op, h |-> h, g |-> g, v |-> v, ok |-> ok, back |-> back, drops |-> drops, over |-> over]
None == <<NSlots, 0>>   \* never a handle
Init == S = Empty /\ ev = Ev("new", None, << >>, << >>, TRUE, << >>, {}, {})

----------------------------------------------------------------------------
(* The calls.  `drops': the pairs whose destructor runs during the call;   *)
(* `over': the pairs the caller overwrote through a reference; `back': the *)
(* values handed back.                                                     *)

Create(g, v) ==
    IF CreateSucceeds(S, g)
    THEN \E h \in AllHandles :
            /\ Fresh(S, h)
            /\ S' = AfterCreate(S, h, Zip(g, v))
            /\ ev' = Ev("create", h, g, v, TRUE, << >>, {}, {})
    ELSE S' = S /\ ev' = Ev("create", None, g, v, FALSE, v, {}, {})

Destroy(h) ==
    IF IsLive(S, h)
    THEN S' = AfterEnd(S, h) /\ ev' = Ev("destroy", h, << >>, << >>, TRUE, << >>, S.live[h], {})
    ELSE S' = S /\ ev' = Ev("destroy", h, << >>, << >>, FALSE, << >>, {}, {})

\* One destructor panics; of the other components any number may have been dropped.
DestroyPanics(h) ==
    /\ IsLive(S, h)
    /\ \E p \in S.live[h] : \E d \in SUBSET S.live[h] :
        /\ p \in d
        /\ S' = AfterBomb(S, h)
        /\ ev' = Ev("bomb", h, << >>, << >>, TRUE, << >>, d, {})

Remove(h, g) ==
    IF RemoveSucceeds(S, h, g)
    THEN S' = AfterEnd(S, h) /\ ev' = Ev("remove", h, g, << >>, TRUE, InOrder(S.live[h], g), {}, {})
    ELSE S' = S /\ ev' = Ev("remove", h, g, << >>, FALSE, << >>, {}, {})

Add(h, k, x) ==
    IF AddSucceeds(S, h, k)
    THEN S' = AfterSet(S, h, Put(S.live[h], k, x)) /\ ev' = Ev("add", h, <<k>>, <<x>>, TRUE, << >>, {}, {})
    ELSE S' = S /\ ev' = Ev("add", h, <<k>>, <<x>>, FALSE, <<x>>, {}, {})

Take(h, k) ==
    IF TakeSucceeds(S, h, k)
    THEN /\ S' = AfterSet(S, h, {p \in S.live[h] : p[1] /= k})
         /\ ev' = Ev("take", h, <<k>>, << >>, TRUE, <<ValueOf(S.live[h], k)>>, {}, {})
    ELSE S' = S /\ ev' = Ev("take", h, <<k>>, << >>, FALSE, << >>, {}, {})

Read(h, g) ==
    /\ S' = S
    /\ IF HasAll(S, h, g)
       THEN ev' = Ev("read", h, g, << >>, TRUE, InOrder(S.live[h], g), {}, {})
       ELSE ev' = Ev("read", h, g, << >>, FALSE, << >>, {}, {})

Write(h, g, v) ==
    IF HasAll(S, h, g)
    THEN /\ S' = AfterSet(S, h, PutAll(S.live[h], g, v))
         /\ ev' = Ev("write", h, g, v, TRUE, << >>, {}, {p \in S.live[h] : p[1] \in Range(g)})
    ELSE S' = S /\ ev' = Ev("write", h, g, v, FALSE, << >>, {}, {})

\* Iteration that replaces every value it reaches.  It may be given up, or be ended by a panic of its
\* predicate: then it reached only some of what it would have.
Bump(mode, g) ==
    \E hs \in SUBSET Reached(S, mode, g, <<"all", << >>>>) :
        /\ S' = AfterBump(S, hs, g, [k \in Kinds |-> Cardinality(Vals)])
        /\ ev' = Ev("bump", None, g, <<mode>>, hs = Reached(S, mode, g, <<"all", << >>>>), hs, {}, {})

Next ==
    \/ \E g \in Groups : \E v \in [1..Len(g) -> Vals] : Create(g, v)
    \/ \E h \in Named :
        \/ Destroy(h)
        \/ Bombs /\ DestroyPanics(h)
        \/ \E k \in Kinds : Take(h, k) \/ \E x \in Vals : Add(h, k, x)
        \/ \E g \in Groups : Remove(h, g) \/ Read(h, g) \/ \E v \in [1..Len(g) -> Vals] : Write(h, g, v)
    \/ \E g \in Groups, mode \in {"match", "exact"} : Bump(mode, g)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What must follow.  Invariants.                                          *)

Sane ==
    /\ DOMAIN S.live \subseteq AllHandles
    /\ \A h \in Handles(S) : LET c == S.live[h] IN
        /\ c /= {} /\ c \subseteq Kinds \X Vals /\ Cardinality(c) <= MaxComp
        /\ Cardinality(KindsOf(c)) = Cardinality(c)
    /\ Cardinality(Handles(S)) <= MaxEnt

\* C02: live handles never share a slot; a live handle is the last one its slot issued.
C02_Unique == \A a, b \in Handles(S) : a[1] = b[1] => a = b
C02_Last == \A h \in Handles(S) : LET s == Issued(S, h[1]) IN s /= << >> /\ s[Len(s)] = h[2]
C02_NoRepeat == \A s \in Slots : LET q == Issued(S, s) IN Cardinality(Range(q)) = Len(q) /\ Len(q) < VMod
\* C17: creation is never impossible while there is room.
C17_Room == Cardinality(Handles(S)) < MaxEnt => \E h \in AllHandles : Fresh(S, h)

\* C09, C10, C11, C13: queries.
Preds == {<<"none", << >>>>, <<"nothing", << >>>>} \cup {<<"has", <<k>>>> : k \in Kinds}
         \cup {<<"lacks", <<k>>>> : k \in Kinds} \cup {<<"leneq", <<n>>>> : n \in 1..2}
         \cup {<<"contains", g>> : g \in {x \in Groups : ValidGroup(x)}}
         \cup {<<"excludes", g>> : g \in {x \in Groups : ValidGroup(x)}}
M(g) == Reached(S, "match", g, <<"none", << >>>>)
X(g) == Reached(S, "exact", g, <<"none", << >>>>)
F(g, p) == Reached(S, "filt", g, p)
C09_Match == \A g \in Groups : M(g) = {h \in Handles(S) : HasAll(S, h, g)}
C10_Filter == \A g \in Groups : \A p \in Preds :
    /\ F(g, p) \subseteq M(g)
    /\ F(g, <<"nothing", << >>>>) = {} /\ F(g, <<"none", << >>>>) = M(g)
    /\ \A a, b \in Handles(S) : KindsOf(S.live[a]) = KindsOf(S.live[b]) => (a \in F(g, p) <=> b \in F(g, p))
    /\ (p[1] = "contains" => F(g, p) = {h \in M(g) : HasAll(S, h, p[2])})
    /\ (p[1] = "has" => F(g, p) = M(g) \ F(g, <<"lacks", p[2]>>))
C11_Exact == \A g \in Groups : X(g) = {h \in M(g) : Cardinality(S.live[h]) = Len(g)}
C11_Partition == \A h \in Handles(S) : \E g \in Groups : h \in X(g) /\ \A f \in Groups : h \in X(f) <=> ValidGroup(f) /\ Range(f) = Range(g)
SameSet(f, g) == ~Repeats(f) /\ ~Repeats(g) /\ Range(f) = Range(g)
C13_Order == \A f, g \in Groups : SameSet(f, g) =>
    /\ M(f) = M(g) /\ X(f) = X(g)
    /\ \A h \in M(f) : Zip(f, InOrder(S.live[h], f)) = Zip(g, InOrder(S.live[h], g))
    /\ \A h \in Handles(S) : RemoveSucceeds(S, h, f) = RemoveSucceeds(S, h, g)
C14_Repeats == \A g \in Groups : Repeats(g) =>
    /\ M(g) = {} /\ X(g) = {} /\ ~CreateSucceeds(S, g)
    /\ \A h \in Named : ~HasAll(S, h, g) /\ ~RemoveSucceeds(S, h, g)

----------------------------------------------------------------------------
(* ... and formulas about every step.  e stands for the call that is made. *)
e == ev'
Others(h) == \A x \in Handles(S) \ {h} : x \in Handles(S') /\ S'.live[x] = S.live[x]

\* C01: nothing but creation makes a handle live, and a call on a handle that is not live fails.
C01_Step ==
    /\ \A h \in Handles(S') \ Handles(S) : e.op = "create" /\ e.ok /\ e.h = h
    /\ (e.h /= None /\ e.op /= "create" /\ ~IsLive(S, e.h)) => (~e.ok /\ S' = S /\ e.back = e.v /\ e.drops = {}) \/
                                                               (e.op \in {"write", "read"} /\ ~e.ok /\ S' = S)
    /\ \A h \in Handles(S) \ Handles(S') : e.op \in {"destroy", "bomb", "remove"} /\ e.h = h /\ e.ok
C02_Step == (e.op = "create" /\ e.ok) => e.h \notin Handles(S) /\ e.h[2] \notin Range(Issued(S, e.h[1]))
\* C03: values change only by writing them, components only by adding or taking them.
C03_Step ==
    /\ \A h \in Handles(S) \cap Handles(S') : S.live[h] /= S'.live[h] =>
        (e.op \in {"add", "take", "write"} /\ e.h = h /\ e.ok) \/ (e.op = "bump" /\ h \in e.back)
    /\ e.op = "read" /\ e.ok => \A i \in DOMAIN e.g : <<e.g[i], e.back[i]>> \in S.live[e.h]
    /\ e.op \in {"create", "add", "write"} /\ e.ok => Zip(e.g, e.v) \subseteq S'.live[e.h]
C04_Step ==
    /\ e.op = "add" => /\ e.ok = (IsLive(S, e.h) /\ e.g[1] \notin KindsOf(S.live[e.h]) /\ Cardinality(S.live[e.h]) < MaxComp)
                       /\ e.ok => S'.live[e.h] = S.live[e.h] \cup {<<e.g[1], e.v[1]>>} /\ Others(e.h)
                       /\ ~e.ok => e.back = e.v /\ S' = S
    /\ e.op = "take" => /\ e.ok = (IsLive(S, e.h) /\ e.g[1] \in KindsOf(S.live[e.h]) /\ Cardinality(S.live[e.h]) > 1)
                        /\ e.ok => S.live[e.h] = S'.live[e.h] \cup {<<e.g[1], e.back[1]>>} /\ Others(e.h)
                                   /\ Cardinality(S'.live[e.h]) = Cardinality(S.live[e.h]) - 1
                        /\ ~e.ok => S' = S
C05_Step == e.op = "destroy" => /\ e.ok = IsLive(S, e.h)
                                /\ e.ok => Handles(S') = Handles(S) \ {e.h} /\ Others(e.h) /\ e.drops = S.live[e.h]
                                /\ ~e.ok => S' = S
C06_Step == e.op = "remove" =>
    /\ e.ok = (IsLive(S, e.h) /\ ~Repeats(e.g) /\ KindsOf(S.live[e.h]) = Range(e.g))
    /\ e.ok => Handles(S') = Handles(S) \ {e.h} /\ Others(e.h) /\ Zip(e.g, e.back) = S.live[e.h] /\ e.drops = {}
    /\ ~e.ok => S' = S /\ e.drops = {}
C07_Step == e.op = "create" =>
    /\ e.ok = (~Repeats(e.g) /\ Len(e.g) <= MaxComp /\ Cardinality(Handles(S)) < MaxEnt)
    /\ e.ok => S'.live[e.h] = Zip(e.g, e.v) /\ Others(e.h) /\ Handles(S') = Handles(S) \cup {e.h}
    /\ ~e.ok => S' = S /\ e.back = e.v
\* C08: what went in is inside, or came out exactly once.  As multisets of pairs; a panicking destructor may leak.
Count(T, p) == Cardinality({h \in Handles(T) : p \in T.live[h]})
InSeq(g, v, p) == Cardinality({i \in DOMAIN g : i \in DOMAIN v /\ <<g[i], v[i]>> = p})
C08_Step == e.op \notin {"read", "bump"} => \A p \in Kinds \X Vals :
    LET given == IF e.op = "write" /\ ~e.ok THEN 0 ELSE InSeq(e.g, e.v, p)
        out == InSeq(e.g, e.back, p) + (IF p \in e.drops THEN 1 ELSE 0) + (IF p \in e.over THEN 1 ELSE 0)
    IN  IF e.op = "bomb" THEN Count(S, p) - Count(S', p) >= out
        ELSE Count(S, p) + given = Count(S', p) + out
C12_Step == e.op = "write" => /\ e.ok = HasAll(S, e.h, e.g)
                              /\ e.ok => /\ Others(e.h)
                                         /\ KindsOf(S'.live[e.h]) = KindsOf(S.live[e.h])
                                         /\ InOrder(S'.live[e.h], e.g) = e.v
                              /\ ~e.ok => S' = S
\* Iterating changes the values it yields, by the caller's hand, and nothing else.
C27_Step == e.op = "bump" =>
    /\ Handles(S') = Handles(S) /\ S'.iss = S.iss /\ S'.bombed = S.bombed
    /\ e.back \subseteq Handles(S)
    /\ \A h \in Handles(S) : /\ KindsOf(S'.live[h]) = KindsOf(S.live[h])
                            /\ \A k \in KindsOf(S.live[h]) :
                                 (h \notin e.back \/ k \notin Range(e.g)) => ValueOf(S'.live[h], k) = ValueOf(S.live[h], k)
    /\ e.ok => \A h \in Handles(S) : HasAll(S, h, e.g) /\ (e.v = <<"match">> \/ Cardinality(S.live[h]) = Len(e.g)) => h \in e.back
C14_Step == Repeats(e.g) => (e.op = "bump" \/ ~e.ok) /\ S' = S
C19_Step == e.op = "bomb" => Handles(S') = Handles(S) \ {e.h} /\ Others(e.h)
C19_After == S.bombed => S'.bombed

Steps ==
    [][C01_Step /\ C02_Step /\ C03_Step /\ C04_Step /\ C05_Step /\ C06_Step /\ C07_Step /\ C08_Step
       /\ C12_Step /\ C27_Step /\ C14_Step /\ C19_Step /\ C19_After]_vars

\* The last call does not distinguish states.
View == S
=============================================================================
