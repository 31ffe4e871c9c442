------------------------------ MODULE EcsImpl ------------------------------
(***************************************************************************)
(* How the library does it: a table of entity slots with a free list       *)
(* threaded through it, component sets ("archetypes") holding rows kept    *)
(* dense by swapping with the last, and an index of archetypes by size and *)
(* 32-bit identifier - which different sets may share.                     *)
(*                                                                         *)
(* The machine refines Ecs (properties Refines and RefinesInit), whatever  *)
(* the identifiers are, and keeps the structural invariants below.         *)
(* Destruction runs user code (destructors) that may panic, so it is a     *)
(* sequence of steps; the other calls cannot be interrupted.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS NKinds, Vals, MaxLen, Bombs, MaxComp,
          MaxEnt,    \* slots in the table at most (and rows in an archetype)
          MaxArch,   \* archetypes at most
          VMod,
          InitCap,   \* rows an archetype starts with
          Collide,   \* whether different sets have equal identifiers
          Emit       \* print every transition

VARIABLES slots,   \* sequence of [ver, arch, row]; arch = 0 marks a free slot, whose row is the next free slot
          free,    \* first free slot or NIL
          archs,   \* sequence of [ks, rows, cap]
          maps,    \* size -> sequence of [id, a], sorted by id
          op,      \* a destruction in progress, or Idle
          iss, bombed,   \* auxiliary: versions issued per slot; whether a destructor has panicked
          ev             \* the last completed call

C == INSTANCE EcsCore

vars == <<slots, free, archs, maps, op, iss, bombed, ev>>
conc == <<slots, free, archs, maps, op, iss, bombed>>

NIL == -1
Kinds == 1..NKinds
\* (When behaviours are generated for replay: one group per set, and one that repeats a kind.)
Groups == LET all == UNION {[1..n -> Kinds] : n \in 1..MaxLen}
          IN  IF ~Emit THEN all
              ELSE {g \in all : g = <<1, 1>> \/ \A i \in 1..(Len(g) - 1) : g[i] < g[i + 1]}
NSlots == MaxEnt
Idle == [st |-> "idle"]
Range(s) == {s[i] : i \in DOMAIN s}

\* Identifiers.  Without collisions, a number in base 2; with, the number of components.
Id(ks) == IF Collide THEN Cardinality(ks)
          ELSE LET bit(k) == IF k \in ks THEN 2 ^ (k - 1) ELSE 0
                   sum[n \in 0..NKinds] == IF n = 0 THEN 0 ELSE sum[n - 1] + bit(n)
               IN  sum[NKinds]

Handle(i) == <<i, slots[i + 1].ver>>
Entry(i) == slots[i + 1]
Resolves(h) == h[1] \in 0..(Len(slots) - 1) /\ Entry(h[1]).arch /= 0 /\ Entry(h[1]).ver = h[2]

----------------------------------------------------------------------------
(* The index of archetypes *)

\* First position of the block of equal identifiers.
Lower(m, id) == CHOOSE i \in 1..(Len(m) + 1) :
                    /\ \A j \in 1..(i - 1) : m[j].id < id
                    /\ \A j \in i..Len(m) : m[j].id >= id
RECURSIVE Scan(_, _, _)
Scan(m, i, ks) ==
    IF i > Len(m) \/ m[i].id /= Id(ks) THEN <<FALSE, i>>
    ELSE IF archs[m[i].a].ks = ks THEN <<TRUE, i>> ELSE Scan(m, i + 1, ks)
Search(ks) == LET m == maps[Cardinality(ks)] IN Scan(m, Lower(m, Id(ks)), ks)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

\* find_or_create: <<index, archs', maps'>>, index 0 if refused.
FindOrCreate(ks) ==
    LET r == Search(ks) IN
    IF r[1] THEN <<maps[Cardinality(ks)][r[2]].a, archs, maps>>
    ELSE IF Len(archs) >= MaxArch THEN <<0, archs, maps>>
    ELSE <<Len(archs) + 1,
           Append(archs, [ks |-> ks, rows |-> << >>, cap |-> InitCap]),
           [maps EXCEPT ![Cardinality(ks)] = InsertAt(@, r[2], [id |-> Id(ks), a |-> Len(archs) + 1])]>>

----------------------------------------------------------------------------
(* Rows *)

MinOf(a, b) == IF a <= b THEN a ELSE b
Grown(cap) == cap + MinOf(cap, MaxEnt - cap)
Push(as, a, row) ==
    [as EXCEPT ![a].rows = Append(@, row),
               ![a].cap = IF Len(as[a].rows) = @ THEN (IF @ = 0 THEN InitCap ELSE Grown(@)) ELSE @]
SwapToLast(rows, i) ==
    LET n == Len(rows) IN [rows EXCEPT ![i] = rows[n], ![n] = rows[i]]
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* The entry of the entity that was last in archetype a now says row i.
Repoint(sl, a, i) ==
    LET n == Len(archs[a].rows) IN
    IF i = n THEN sl ELSE [sl EXCEPT ![archs[a].rows[n].h[1] + 1].row = i]

----------------------------------------------------------------------------
(* Calls *)

E(o, h, g, v, ok, back, drops) ==
    [op |-> o, h |-> h, g |-> g, v |-> v, ok |-> ok, back |-> back, drops |-> drops]
None == <<NSlots, 0>>

Init ==
    /\ slots = << >> /\ free = NIL /\ archs = << >> /\ maps = [n \in 1..MaxComp |-> << >>]
    /\ op = Idle /\ iss = << >> /\ bombed = FALSE
    /\ ev = E("new", None, << >>, << >>, TRUE, << >>, {})

Refused(e) == ev' = e /\ UNCHANGED <<slots, free, op, iss, bombed>>

Create(g, v) ==
    LET bad == C!Repeats(g) \/ Len(g) > MaxComp
        fc == FindOrCreate(Range(g))
        a == fc[1]
        row == [k \in Range(g) |-> v[CHOOSE i \in DOMAIN g : g[i] = k]]
        no == Refused(E("create", None, g, v, FALSE, v, {}))
    IN  IF bad THEN no /\ UNCHANGED <<archs, maps>>
        ELSE IF a = 0 THEN no /\ UNCHANGED <<archs, maps>>
        ELSE IF Len(fc[2][a].rows) >= MaxEnt \/ (free = NIL /\ Len(slots) >= MaxEnt)
             THEN no /\ archs' = fc[2] /\ maps' = fc[3]     \* the archetype remains
        ELSE LET i == IF free = NIL THEN Len(slots) ELSE free
                 ver == IF free = NIL THEN 0 ELSE Entry(i).ver
                 h == <<i, ver>>
                 ent == [ver |-> ver, arch |-> a, row |-> Len(fc[2][a].rows) + 1]
             IN  /\ slots' = IF free = NIL THEN Append(slots, ent) ELSE [slots EXCEPT ![i + 1] = ent]
                 /\ free' = IF free = NIL THEN NIL ELSE Entry(i).row
                 /\ archs' = Push(fc[2], a, [h |-> h, c |-> row])
                 /\ maps' = fc[3]
                 /\ iss' = (i :> C!Remember(IF i \in DOMAIN iss THEN iss[i] ELSE << >>, ver)) @@ iss
                 /\ ev' = E("create", h, g, v, TRUE, << >>, {})
                 /\ UNCHANGED <<op, bombed>>

FreeSlot(sl, i) == [sl EXCEPT ![i + 1] = [ver |-> (@.ver + 1) % VMod, arch |-> 0, row |-> free]]

\* Destruction: all bookkeeping first, the destructors last, one by one.
DestroyBegin(h) ==
    IF ~Resolves(h)
    THEN Refused(E("destroy", h, << >>, << >>, FALSE, << >>, {})) /\ UNCHANGED <<archs, maps>>
    ELSE LET a == Entry(h[1]).arch
             i == Entry(h[1]).row
         IN  /\ slots' = Repoint(slots, a, i)
             /\ archs' = [archs EXCEPT ![a].rows = SwapToLast(@, i)]
             /\ op' = [st |-> "free", h |-> h, a |-> a, pre |-> archs, preslots |-> slots, todo |-> {}, done |-> {}]
             /\ UNCHANGED <<free, maps, iss, bombed, ev>>
DestroyFree ==
    /\ op.st = "free"
    /\ slots' = FreeSlot(slots, op.h[1]) /\ free' = op.h[1]
    /\ op' = [op EXCEPT !.st = "shrink"]
    /\ UNCHANGED <<archs, maps, iss, bombed, ev>>
Pairs(row) == {<<k, row.c[k]>> : k \in DOMAIN row.c}
DestroyShrink ==
    /\ op.st = "shrink"
    /\ LET rows == archs[op.a].rows IN
       /\ archs' = [archs EXCEPT ![op.a].rows = Front(@)]
       /\ op' = [op EXCEPT !.st = "drop", !.todo = Pairs(rows[Len(rows)])]
    /\ UNCHANGED <<slots, free, maps, iss, bombed, ev>>
\* The destructor of the first remaining component (in identifier order) returns ...
DestroyDrop ==
    /\ op.st = "drop" /\ op.todo /= {}
    /\ LET p == CHOOSE p \in op.todo : \A q \in op.todo : p[1] <= q[1] IN
       IF op.todo = {p}
       THEN /\ op' = Idle
            /\ ev' = E("destroy", op.h, << >>, << >>, TRUE, << >>, op.done \cup {p})
            /\ UNCHANGED bombed
       ELSE /\ op' = [op EXCEPT !.todo = @ \ {p}, !.done = @ \cup {p}]
            /\ UNCHANGED <<ev, bombed>>
    /\ UNCHANGED <<slots, free, archs, maps, iss>>
\* ... or panics, and the caller catches the panic.
DestroyPanic ==
    /\ Bombs /\ op.st = "drop" /\ op.todo /= {}
    /\ LET p == CHOOSE p \in op.todo : \A q \in op.todo : p[1] <= q[1] IN
       ev' = E("bomb", op.h, <<p[1]>>, << >>, TRUE, << >>, op.done \cup {p})
    /\ op' = Idle /\ bombed' = TRUE
    /\ UNCHANGED <<slots, free, archs, maps, iss>>

Remove(h, g) ==
    LET no == Refused(E("remove", h, g, << >>, FALSE, << >>, {})) /\ UNCHANGED <<archs, maps>> IN
    IF ~Resolves(h) THEN no
    ELSE LET a == Entry(h[1]).arch
             i == Entry(h[1]).row
             row == archs[a].rows[i].c
         IN  IF C!Repeats(g) \/ Len(g) /= Cardinality(archs[a].ks) \/ ~(Range(g) \subseteq archs[a].ks) THEN no
             ELSE /\ slots' = FreeSlot(Repoint(slots, a, i), h[1])
                  /\ free' = h[1]
                  /\ archs' = [archs EXCEPT ![a].rows = Front(SwapToLast(@, i))]
                  /\ ev' = E("remove", h, g, << >>, TRUE, [j \in DOMAIN g |-> row[g[j]]], {})
                  /\ UNCHANGED <<maps, op, iss, bombed>>

\* Moves the entity of h to the archetype of set ks, with components row.
Move(h, ks, row, okev, noev) ==
    LET fc == FindOrCreate(ks)
        b == fc[1]
        a == Entry(h[1]).arch
        i == Entry(h[1]).row
    IN  IF b = 0 THEN Refused(noev) /\ UNCHANGED <<archs, maps>>
        ELSE /\ archs' = Push([fc[2] EXCEPT ![a].rows = Front(SwapToLast(@, i))], b, [h |-> h, c |-> row])
             /\ maps' = fc[3]
             /\ slots' = [Repoint(slots, a, i) EXCEPT ![h[1] + 1].arch = b,
                                                      ![h[1] + 1].row = Len(fc[2][b].rows) + 1]
             /\ ev' = okev
             /\ UNCHANGED <<free, op, iss, bombed>>

Add(h, k, x) ==
    LET noev == E("add", h, <<k>>, <<x>>, FALSE, <<x>>, {}) IN
    IF ~Resolves(h) THEN Refused(noev) /\ UNCHANGED <<archs, maps>>
    ELSE LET A == archs[Entry(h[1]).arch]
             row == A.rows[Entry(h[1]).row].c
         IN  IF k \in A.ks \/ Cardinality(A.ks) = MaxComp THEN Refused(noev) /\ UNCHANGED <<archs, maps>>
             ELSE Move(h, A.ks \cup {k}, (k :> x) @@ row, E("add", h, <<k>>, <<x>>, TRUE, << >>, {}), noev)

Take(h, k) ==
    LET noev == E("take", h, <<k>>, << >>, FALSE, << >>, {}) IN
    IF ~Resolves(h) THEN Refused(noev) /\ UNCHANGED <<archs, maps>>
    ELSE LET A == archs[Entry(h[1]).arch]
             row == A.rows[Entry(h[1]).row].c
         IN  IF k \notin A.ks \/ Cardinality(A.ks) = 1 THEN Refused(noev) /\ UNCHANGED <<archs, maps>>
             ELSE Move(h, A.ks \ {k}, [q \in A.ks \ {k} |-> row[q]],
                       E("take", h, <<k>>, << >>, TRUE, <<row[k]>>, {}), noev)

Write(h, g, v) ==
    LET no == Refused(E("write", h, g, v, FALSE, << >>, {})) /\ UNCHANGED <<archs, maps>> IN
    IF ~Resolves(h) THEN no
    ELSE LET a == Entry(h[1]).arch
             i == Entry(h[1]).row
         IN  IF C!Repeats(g) \/ ~(Range(g) \subseteq archs[a].ks) THEN no
             ELSE /\ archs' = [archs EXCEPT ![a].rows[i].c =
                        [q \in DOMAIN @ |-> IF q \in Range(g) THEN v[CHOOSE j \in DOMAIN g : g[j] = q] ELSE @[q]]]
                  /\ ev' = E("write", h, g, v, TRUE, << >>, {})
                  /\ UNCHANGED <<slots, free, maps, op, iss, bombed>>

\* Handles a caller could pass: any version of any slot, and one slot beyond the table.
\* (When behaviours are generated for replay: the current and the previous version of every slot.)
Named == IF Emit THEN UNION {{<<i, slots[i + 1].ver>>, <<i, (slots[i + 1].ver + VMod - 1) % VMod>>} : i \in 0..(Len(slots) - 1)}
         ELSE (0..Len(slots)) \X (0..(VMod - 1))

Next ==
    \/ /\ op = Idle
       /\ \/ \E g \in Groups : \E v \in [1..Len(g) -> Vals] : Create(g, v)
          \/ \E h \in Named :
             \/ DestroyBegin(h)
             \/ \E k \in Kinds : Take(h, k) \/ \E x \in Vals : Add(h, k, x)
             \/ \E g \in Groups : Remove(h, g) \/ (Cardinality(Vals) > 1 /\ \E v \in [1..Len(g) -> Vals] : Write(h, g, v))
    \/ op /= Idle /\ (DestroyFree \/ DestroyShrink \/ DestroyDrop \/ DestroyPanic)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Structure (whenever no call is in progress) *)

Live == {i \in 0..(Len(slots) - 1) : Entry(i).arch /= 0}
RECURSIVE FreeList(_, _)
FreeList(i, n) == IF i = NIL \/ n = 0 THEN << >> ELSE <<i>> \o FreeList(Entry(i).row, n - 1)
Structure ==
    /\ \A i \in Live : LET x == Entry(i) IN
        /\ x.arch \in DOMAIN archs /\ x.row \in DOMAIN archs[x.arch].rows
        /\ archs[x.arch].rows[x.row].h = Handle(i)
    /\ \A a \in DOMAIN archs : \A r \in DOMAIN archs[a].rows : LET h == archs[a].rows[r].h IN
        Resolves(h) /\ Entry(h[1]).arch = a /\ Entry(h[1]).row = r
    /\ LET fl == FreeList(free, Len(slots) + 1) IN
        /\ Len(fl) <= Len(slots)
        /\ Cardinality(Range(fl)) = Len(fl)
        /\ Range(fl) = (0..(Len(slots) - 1)) \ Live
    /\ Len(slots) <= MaxEnt
Index ==
    /\ \A n \in DOMAIN maps : \A j \in DOMAIN maps[n] :
        /\ maps[n][j].a \in DOMAIN archs /\ Cardinality(archs[maps[n][j].a].ks) = n
        /\ maps[n][j].id = Id(archs[maps[n][j].a].ks)
        /\ j > 1 => maps[n][j - 1].id <= maps[n][j].id
    /\ \A a \in DOMAIN archs : Cardinality({<<n, j>> \in (1..MaxComp) \X (1..Len(archs)) :
                                            j \in DOMAIN maps[n] /\ maps[n][j].a = a}) = 1
    /\ \A a, b \in DOMAIN archs : archs[a].ks = archs[b].ks => a = b
Storage ==
    \A a \in DOMAIN archs : /\ Len(archs[a].rows) <= archs[a].cap /\ (archs[a].cap <= MaxEnt \/ archs[a].cap = InitCap)
                            /\ archs[a].ks /= {} /\ Cardinality(archs[a].ks) <= MaxComp
                            /\ \A r \in DOMAIN archs[a].rows : DOMAIN archs[a].rows[r].c = archs[a].ks
Inv == op = Idle => Structure /\ Index /\ Storage

\* Iteration walks the index upwards from the size of the group; it meets every matching row once.
Walk(g) == LET lev(n) == [j \in DOMAIN maps[n] |-> maps[n][j].a]
               hit(n) == SelectSeq(lev(n), LAMBDA a : Range(g) \subseteq archs[a].ks)
               all[n \in 0..MaxComp] == IF n < Len(g) THEN << >> ELSE all[n - 1] \o hit(n)
           IN  all[MaxComp]

----------------------------------------------------------------------------
(* Refinement.  While a destruction is in progress the abstract registry is *)
(* the one before the call.                                                 *)

AbsOf(sl, as) ==
    LET up == {i \in 0..(Len(sl) - 1) : sl[i + 1].arch /= 0}
        hs == {<<i, sl[i + 1].ver>> : i \in up}
    IN  [live |-> [h \in hs |-> LET x == sl[h[1] + 1]
                                    c == as[x.arch].rows[x.row].c
                                IN  {<<k, c[k]>> : k \in DOMAIN c}],
         iss |-> iss, bombed |-> bombed]
AbsS == IF op = Idle THEN AbsOf(slots, archs) ELSE AbsOf(op.preslots, op.pre)
OverOf(e) == {}

A == INSTANCE Ecs WITH S <- AbsS, ev <- ev, NSlots <- MaxEnt

\* Which abstract call a completed concrete one must be.  The abstract events also record what a write
\* overwrote; here only the resulting registry is compared for writes.
AbsCall(e) ==
    LET SS == AbsS
        T == AbsS'
    IN CASE e.op = "create" ->
              IF C!CreateSucceeds(SS, e.g) /\ e.ok
              THEN C!Fresh(SS, e.h) /\ T = C!AfterCreate(SS, e.h, C!Zip(e.g, e.v))
              ELSE T = SS /\ ~e.ok /\ e.back = e.v
                   /\ (C!CreateSucceeds(SS, e.g) => Len(archs) = MaxArch)
         [] e.op = "destroy" -> e.ok = C!IsLive(SS, e.h)
                                /\ IF e.ok THEN T = C!AfterEnd(SS, e.h) /\ e.drops = SS.live[e.h] ELSE T = SS
         [] e.op = "bomb" -> C!IsLive(SS, e.h) /\ T = C!AfterBomb(SS, e.h) /\ e.drops \subseteq SS.live[e.h]
         [] e.op = "remove" -> e.ok = C!RemoveSucceeds(SS, e.h, e.g)
                               /\ IF e.ok THEN T = C!AfterEnd(SS, e.h) /\ e.back = C!InOrder(SS.live[e.h], e.g) ELSE T = SS
         [] e.op = "add" -> IF e.ok THEN C!AddSucceeds(SS, e.h, e.g[1])
                                         /\ T = C!AfterSet(SS, e.h, C!Put(SS.live[e.h], e.g[1], e.v[1]))
                            ELSE T = SS /\ e.back = e.v
                                 /\ (C!AddSucceeds(SS, e.h, e.g[1]) => Len(archs) = MaxArch)
         [] e.op = "take" -> IF e.ok THEN C!TakeSucceeds(SS, e.h, e.g[1])
                                          /\ T = C!AfterSet(SS, e.h, {p \in SS.live[e.h] : p[1] /= e.g[1]})
                                          /\ e.back = <<C!ValueOf(SS.live[e.h], e.g[1])>>
                             ELSE T = SS /\ (C!TakeSucceeds(SS, e.h, e.g[1]) => Len(archs) = MaxArch)
         [] e.op = "write" -> e.ok = C!HasAll(SS, e.h, e.g)
                              /\ IF e.ok THEN T = C!AfterSet(SS, e.h, C!PutAll(SS.live[e.h], e.g, e.v)) ELSE T = SS
         [] OTHER -> FALSE
RefinesInit == AbsS = C!Empty
Refines == RefinesInit /\ [][IF op' = Idle THEN AbsCall(ev') ELSE AbsS' = AbsS]_vars

\* What the queries of the implementation see is what the contract says.
Queries ==
    op = Idle => \A g \in Groups : (~C!Repeats(g) /\ Len(g) <= MaxComp) =>
        LET w == Walk(g)
            met == {archs[w[j]].rows[r].h : <<j, r>> \in {<<j, r>> \in (1..Len(w)) \X (1..MaxEnt) : r \in DOMAIN archs[w[j]].rows}}
            s == Search(Range(g))
            ex == IF s[1] THEN {archs[maps[Len(g)][s[2]].a].rows[r].h : r \in DOMAIN archs[maps[Len(g)][s[2]].a].rows} ELSE {}
        IN  /\ Cardinality(Range(w)) = Len(w)
            /\ met = C!Reached(AbsS, "match", g, <<"none", << >>>>)
            /\ ex = C!Reached(AbsS, "exact", g, <<"none", << >>>>)
\* A creation can always be carried out when fewer than MaxEnt entities live (and the set may exist).
Room == (op = Idle /\ Cardinality(Live) < MaxEnt) => (free /= NIL \/ Len(slots) < MaxEnt)

----------------------------------------------------------------------------
(* Behaviours for replay: every transition, with states named by fingerprint. *)
\* Versions and their history do not influence which calls are possible; destruction is one call.
Shape == <<[i \in DOMAIN slots |-> <<slots[i].arch, slots[i].row>>], free,
           [a \in DOMAIN archs |-> <<archs[a].ks, [r \in DOMAIN archs[a].rows |-> archs[a].rows[r].h[1]], archs[a].cap>>],
           op.st, IF op.st = "idle" THEN {} ELSE op.todo>>
ShapeView == Shape
FewArchs == Len(archs) < MaxArch
Conc == conc
Edge == Emit => PrintT(<<"EDGE", TLCFP(Shape), IF op' = Idle THEN ev'.op ELSE "step", ev'.h[1],
                        IF ev'.op \in {"create", "new"} \/ op' /= Idle \/ op /= Idle THEN TRUE ELSE Resolves(ev'.h),
                        ev'.g, ev'.ok, TLCFP(Shape')>>)
=============================================================================
