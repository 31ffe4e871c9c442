------------------------------ MODULE EcsTrace ------------------------------
(***************************************************************************)
(* Judges an execution recorded from the real registry against EcsCore.    *)
(*                                                                         *)
(* The trace is a sequence of events, one per call.  The specification     *)
(* state after each event follows from the contract (EcsCore) and from the *)
(* handle that creation was observed to choose; everything else observed   *)
(* is compared with it.  `viol' collects <<property, script line>> pairs.  *)
(* There is exactly one behaviour per trace; Consumed demands that TLC     *)
(* walked it to the end.                                                   *)
(***************************************************************************)
EXTENDS EcsCore, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
NK == Len(Events[1].kinds)
Dom == [k \in 1..NK |-> Events[1].kinds[k][2]]
Drops == {k \in 1..NK : Events[1].kinds[k][3] = 1}

VARIABLES l,      \* next event
          regs,   \* registry number -> abstract state
          left,   \* registries in which an iteration was given up or ended by a panic
          lost,   \* registries one of whose calls did not get the memory it needed
          base,   \* regs and left where the present branch began
          viol    \* violations found so far
vars == <<l, regs, left, lost, base, viol>>

----------------------------------------------------------------------------
AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
             "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C27", "C28", "C30"}

If(b, s) == IF b THEN s ELSE {}
\* The group is listed in another order than that of the component table.
Permuted(g) == \E i \in 1..(Len(g) - 1) : g[i] > g[i + 1]
GroupProps(g) == If(Repeats(g), {"C14"}) \cup If(Permuted(g) /\ ~Repeats(g), {"C13"})
                 \cup If(Len(g) >= 13, {"C15"})

OpProps(e) ==
    CASE e.op = "create" -> {"C07"} \cup GroupProps(e.g)
      [] e.op = "destroy" -> {"C05"}
      [] e.op = "bomb" -> {"C05", "C19"}
      [] e.op = "remove" -> {"C06"} \cup GroupProps(e.g)
      [] e.op \in {"add", "rmc"} -> {"C04"}
      [] e.op = "has" -> {"C03", "C16"}
      [] e.op = "get" -> {"C03"}
      [] e.op = "getm" -> {"C03", "C12"}
      [] e.op = "hasg" -> {"C03", "C16"} \cup GroupProps(e.g)
      [] e.op = "getg" -> {"C03"} \cup GroupProps(e.g)
      [] e.op = "getgm" -> {"C03", "C12"} \cup GroupProps(e.g)
      [] e.op = "perm" -> {"C13"}
      [] e.op = "ents" -> {"C02"}
      [] e.op = "iter" -> (CASE e.mode = "match" -> {"C09"}
                             [] e.mode = "filt" -> {"C10"}
                             [] OTHER -> {"C11"})
                          \cup If(e.mut = 1, {"C12"}) \cup GroupProps(e.g)
      [] e.op = "part" -> {"C27", IF e.mode = "match" THEN "C09" ELSE "C10"}
                          \cup If(e.mut = 1, {"C12"}) \cup GroupProps(e.g)
      [] e.op = "par" -> {"C21"}
      [] e.op = "drop" -> {"C08", "C20"}
      [] e.op = "bombdrop" -> {"C08", "C19"}
      [] e.op \in {"new", "snap", "mv"} -> {"C21"}
      [] OTHER -> AllProps

----------------------------------------------------------------------------
(* Comparison of the enumeration and of all single reads with the state    *)

SnapViol(e, x, S) ==
    IF x.sn = 0 THEN {} ELSE
    LET hs == {y[1] : y \in Range(x.snap)}
        bad == {y \in Range(x.snap) : IsLive(S, y[1]) /\ Range(y[2]) /= S.live[y[1]]}
        badkinds == {y \in bad : KindsOf(Range(y[2])) /= KindsOf(S.live[y[1]])}
        extra == hs \ Handles(S)
        missing == Handles(S) \ hs
    IN  If(e.op \in {"iter", "par"} /\ (bad /= {} \/ extra /= {} \/ missing /= {}), {"C27"})
        \cup If(Len(x.snap) /= Cardinality(hs), {"C02"})
        \cup If(extra \cup missing /= {}, {"C01", "C02"} \cup OpProps(e))
        \cup If(missing /= {}, {"C03"})
        \cup If(bad /= {}, {"C03"} \cup OpProps(e))
        \cup If(badkinds /= {}, {"C16"} \cup If(e.op \in {"create", "add", "rmc"}, {"C15"}))
        \cup If((bad /= {} \/ extra /= {} \/ missing /= {}) /\ Cardinality(Handles(S)) > 100, {"C17", "C20"})
        \cup If(x.hb /= 0, {"C03", "C16"})

\* The values dropped by the call, against the set of pairs that ended (each once).
DropsAre(e, c) ==
    LET want == {p \in c : p[1] \in Drops}
    IN  Len(e.drops) = Cardinality(want) /\ Range(e.drops) = want

\* Iteration drops nothing.
DropViol(e, c) == If(~DropsAre(e, c), {"C08"} \cup OpProps(e) \cup If(e.op = "iter", {"C27"}))

FaultViol(e, S) ==
    LET f == Range(e.faults) IN
    If(f /= {}, {"C20"})
    \cup If("overlap" \in f, {"C12"})
    \cup If("dfree" \in f, {"C08"})
    \cup If(f /= {} /\ "g" \in DOMAIN e, If(Repeats(e.g), {"C14"}))

----------------------------------------------------------------------------
(* Each operation: the state after it and the violations it shows          *)

Res(S, v) == [s |-> S, v |-> v]

CreateR(e, S) ==
    LET want == CreateSucceeds(S, e.g) IN
    IF e.ok = 1
    THEN LET S2 == AfterCreate(S, e.h, Zip(e.g, e.v)) IN
         Res(S2,
             If(~want, OpProps(e) \cup If(ValidGroup(e.g), {"C17"}))
             \cup If(~Fresh(S, e.h), {"C01", "C02"})
             \cup DropViol(e, {}))
    ELSE Res(S,
             If(want, OpProps(e) \cup {"C15", "C17"})
             \cup If(e.ok = 0 /\ e.back /= e.v, OpProps(e) \cup {"C08"})
             \cup DropViol(e, {}))

DestroyR(e, S) ==
    IF IsLive(S, e.h)
    THEN Res(AfterEnd(S, e.h),
             If(e.ok /= 1, {"C05"}) \cup If(e.ok = 1, DropViol(e, S.live[e.h])))
    ELSE Res(S, If(e.ok /= 0, {"C01", "C05"}) \cup DropViol(e, {}))

\* A destruction during which the destructor of the value e.bomb panics.  The entity is gone all the
\* same; its other values may have been dropped or not, but none twice.
BombR(e, S) ==
    IF IsLive(S, e.h)
    THEN LET c == S.live[e.h]
             fires == e.bomb \in c /\ e.bomb[1] \in Drops
         IN  IF fires
             THEN Res(AfterBomb(S, e.h),
                      If(e.ok = 0, {"C05", "C19"})
                      \cup If(~(Range(e.drops) \subseteq c) \/ Cardinality(Range(e.drops)) /= Len(e.drops)
                              \/ e.bomb \notin Range(e.drops), {"C08", "C19"}))
             ELSE Res(AfterEnd(S, e.h), If(e.ok /= 1, {"C05"}) \cup DropViol(e, c))
    ELSE Res(S, If(e.ok /= 0, {"C01", "C05"}) \cup DropViol(e, {}))

RemoveR(e, S) ==
    IF RemoveSucceeds(S, e.h, e.g)
    THEN LET want == InOrder(S.live[e.h], e.g) IN
         Res(AfterEnd(S, e.h),
             If(e.ok /= 1, OpProps(e))
             \cup If(e.ok = 1 /\ e.back /= want, OpProps(e) \cup {"C08", "C03"})
             \cup DropViol(e, {}))
    ELSE Res(S,
             If(e.ok /= 0, OpProps(e) \cup If(~IsLive(S, e.h), {"C01"}) \cup {"C08"})
             \cup DropViol(e, {}))

AddR(e, S) ==
    IF AddSucceeds(S, e.h, e.k)
    THEN Res(AfterSet(S, e.h, Put(S.live[e.h], e.k, e.v)),
             If(e.ok /= 1, {"C04", "C15", "C16"})
             \cup DropViol(e, {}))
    ELSE Res(S,
             If(e.ok /= 0, {"C04"} \cup If(~IsLive(S, e.h), {"C01"})
                           \cup If(IsLive(S, e.h), {"C15"}))
             \cup If(e.ok = 0 /\ e.back /= <<e.v>>, {"C04", "C08"} \cup If(~IsLive(S, e.h), {"C01"}))
             \cup DropViol(e, {}))

TakeR(e, S) ==
    IF TakeSucceeds(S, e.h, e.k)
    THEN LET c == S.live[e.h] IN
         Res(AfterSet(S, e.h, {p \in c : p[1] /= e.k}),
             If(e.ok /= 1, {"C04", "C15", "C16"})
             \cup If(e.ok = 1 /\ e.back /= <<ValueOf(c, e.k)>>, {"C04", "C08", "C03"})
             \cup DropViol(e, {}))
    ELSE Res(S,
             If(e.ok /= 0, {"C04", "C08"} \cup If(~IsLive(S, e.h), {"C01"})
                           \cup If(IsLive(S, e.h), {"C15"}))
             \cup DropViol(e, {}))

HasR(e, S) ==
    LET want == IF e.op = "has" THEN Has(S, e.h, e.k) ELSE HasAll(S, e.h, e.g) IN
    Res(S, If(e.ok /= (IF want THEN 1 ELSE 0), OpProps(e) \cup If(~IsLive(S, e.h), {"C01"}))
           \cup DropViol(e, {}))

GetR(e, S) ==
    LET g == IF e.op \in {"get", "getm"} THEN <<e.k>> ELSE e.g
        want == HasAll(S, e.h, g)
        S2 == IF want /\ "new" \in DOMAIN e /\ e.ok = 1
              THEN AfterSet(S, e.h, PutAll(S.live[e.h], g, e.new)) ELSE S
    IN Res(S2,
           If(want /= (e.ok = 1) \/ e.ok = -1, OpProps(e) \cup If(~IsLive(S, e.h), {"C01"}))
           \cup If(want /\ e.ok = 1, If(e.got /= InOrder(S.live[e.h], g), OpProps(e)))
           \cup DropViol(e, {}))

\* The same read through several orders of one group: consistent with each other (C13) and right (C03).
PermR(e, S) ==
    LET one(q) == LET g == q[1]
                      want == HasAll(S, e.h, g)
                      val == IF want THEN InOrder(S.live[e.h], g) ELSE << >>
                      ok == IF want THEN 1 ELSE 0
                  IN  q[2] = ok /\ q[3] = <<ok, val>> /\ q[4] = <<ok, val>>
        asSet(q, r) == <<q[2], r[1], {<<q[1][i], r[2][i]>> : i \in 1..MinOf(Len(q[1]), Len(r[2]))}>>
        views == {asSet(q, q[3]) : q \in Range(e.q)} \cup {asSet(q, q[4]) : q \in Range(e.q)}
    IN  Res(S, If(Cardinality(views) > 1, {"C13"})
               \cup If(\E q \in Range(e.q) : ~one(q), {"C03"} \cup If(~IsLive(S, e.h), {"C01"})))

EntsR(e, S) ==
    Res(S, If(Len(e.es) /= Cardinality(Handles(S)) \/ Range(e.es) /= Handles(S), {"C02"}
              \cup If(Range(e.es) \ Handles(S) /= {}, {"C01"})))

RowsOk(rows, ent, S, hs, g) ==
    IF ent
    THEN /\ Len(rows) = Cardinality(hs)
         /\ Range(rows) = RowSet(S, hs, g)
    ELSE /\ Len(rows) = Cardinality(hs)
         /\ BagOf([i \in DOMAIN rows |-> rows[i][2]]) = RowBag(S, hs, g)

\* The descriptions given to the predicate: well formed, and the kinds of every matching entity occur.
DescsOk(e, x, S) ==
    /\ x.descbad = 0
    /\ \A d \in Range(x.descs) : ~Repeats(d) /\ Range(d) \subseteq 1..NK /\ d /= << >>
    /\ {KindsOf(S.live[h]) : h \in Reached(S, "match", e.g, <<"none", << >>>>)}
         \subseteq {Range(d) : d \in Range(x.descs)}

IterR(e, S) ==
    LET hs == Reached(S, e.mode, e.g, e.pred)
        S2 == IF e.mut = 1 THEN AfterBump(S, hs, e.g, Dom) ELSE S
    IN  Res(S2,
            If(~RowsOk(e.rows, e.ent = 1, S, hs, e.g), OpProps(e) \cup {"C16"})
            \cup If(e.ragged = 1, OpProps(e) \cup {"C20"})
            \cup If(e.mode = "filt" /\ ValidGroup(e.g) /\ ~DescsOk(e, e, S), {"C10", "C16"})
            \cup DropViol(e, {}))

\* An iteration that may have been given up, or ended by a panic of its predicate.  What it yielded is
\* what the whole iteration would yield, in part, each entity at most once; it changed (if it changes)
\* what it yielded and nothing else.  If it came to its end, it yielded everything.
PartR(e, S) ==
    LET hs == Reached(S, e.mode, e.g, e.pred)
        got == {x[1] : x \in Range(e.rows)}
        fine == got \subseteq hs /\ RowsOk(e.rows, TRUE, S, got, e.g)
        seen == got \cap hs
    IN  Res(IF e.mut = 1 THEN AfterBump(S, seen, e.g, Dom) ELSE S,
            If(~fine, OpProps(e))
            \cup If(e.ended = 1 /\ e.banged = 0 /\ seen /= hs, OpProps(e) \cup {"C16"})
            \cup If(e.ragged = 1, OpProps(e) \cup {"C20"})
            \cup If(e.descbad = 1, {"C10", "C16"})
            \cup If(e.banged = 1 /\ e.pred[1] /= "bang", OpProps(e))
            \cup DropViol(e, {}))

ParR(e, S) ==
    LET hs(x) == Reached(S, "match", x.g, <<"none", << >>>>)
        bad(x) == ~RowsOk(x.rows, TRUE, S, hs(x), x.g) \/ x.ragged = 1 \/ SnapViol(e, x, S) /= {}
    IN  Res(S, If(\E x \in Range(e.outs) : bad(x), {"C21"}) \cup DropViol(e, {}))

DropR(e, S) ==
    LET all == UNION {S.live[h] : h \in Handles(S)}
        seen == Range(e.drops)
        count(p) == Cardinality({i \in DOMAIN e.drops : e.drops[i] = p})
        want(p) == IF p[1] \in Drops THEN Cardinality({h \in Handles(S) : p \in S.live[h]}) ELSE 0
    IN  Res(Empty, If(\E p \in seen \cup all : count(p) /= want(p), {"C08"} \cup If(S.bombed, {"C19"})))

\* The registry ends and the destructor of the value e.bomb panics once: no value is dropped twice.
BombDropR(e, S) ==
    IF e.fired = 0 THEN DropR(e, S)
    ELSE LET count(p) == Cardinality({i \in DOMAIN e.drops : e.drops[i] = p})
             have(p) == Cardinality({h \in Handles(S) : p \in S.live[h]})
         IN  Res(Empty, If(count(e.bomb) = 0 \/ \E p \in Range(e.drops) : count(p) > have(p), {"C08", "C19"}))

\* A call one of whose requests for memory was refused: it panics, and of all values it drops at most
\* those it was given, once.
Given(e) == CASE e.op = "create" -> {<<e.g[i], e.v[i]>> : i \in DOMAIN e.g}
              [] e.op = "add" -> {<<e.k, e.v>>}
              [] OTHER -> {}
OomR(e, S) ==
    Res(S, If(e.panic = 0, {"C30", "C28"})
           \cup If(~(Range(e.drops) \subseteq Given(e)) \/ Cardinality(Range(e.drops)) /= Len(e.drops), {"C08", "C30"}))

\* A registry ends that has gone through such a call: no value is dropped twice, nor one that it was not given.
LostDropR(e, S) ==
    LET count(p) == Cardinality({i \in DOMAIN e.drops : e.drops[i] = p})
        have(p) == Cardinality({h \in Handles(S) : p \in S.live[h]})
    IN  Res(Empty, If(e.panic = 1, {"C30"}) \cup If(\E p \in Range(e.drops) : count(p) > have(p), {"C08", "C30"}))

Step(e, S) ==
    CASE e.op = "new" -> Res(Empty, {})
      [] e.op = "create" -> CreateR(e, S)
      [] e.op = "destroy" -> DestroyR(e, S)
      [] e.op = "bomb" -> BombR(e, S)
      [] e.op = "remove" -> RemoveR(e, S)
      [] e.op = "add" -> AddR(e, S)
      [] e.op = "rmc" -> TakeR(e, S)
      [] e.op \in {"has", "hasg"} -> HasR(e, S)
      [] e.op \in {"get", "getm", "getg", "getgm"} -> GetR(e, S)
      [] e.op = "perm" -> PermR(e, S)
      [] e.op = "ents" -> EntsR(e, S)
      [] e.op = "iter" -> IterR(e, S)
      [] e.op = "part" -> PartR(e, S)
      [] e.op = "par" -> ParR(e, S)
      [] e.op = "drop" -> DropR(e, S)
      [] e.op = "bombdrop" -> BombDropR(e, S)
      [] e.op \in {"snap", "mv"} -> Res(S, DropViol(e, {}))
      [] OTHER -> Res(S, AllProps)

\* A look at the registry directly after an iteration.
AfterIter(e) == /\ e.op = "snap"
                /\ LET d == Events[l - 1] IN d.op \in {"iter", "part", "par"} /\ d.r = e.r

Judge(e) ==
    LET S == IF e.r \in DOMAIN regs THEN regs[e.r] ELSE Empty
        oom == "oom" \in DOMAIN e /\ e.oom = 1
        gone == e.r \in lost /\ e.op = "drop"
        r == IF oom THEN OomR(e, S) ELSE IF gone THEN LostDropR(e, S) ELSE Step(e, S)
        v == IF oom \/ gone THEN r.v \cup If(e.faults /= << >>, {"C20", "C30"})
             ELSE IF e.panic = 1
             \* an unexpected panic: what the call promised is broken
             THEN OpProps(e) \cup {"C28"} \cup FaultViol(e, S)
                  \cup If("h" \in DOMAIN e, IF e.h \in Handles(S) THEN {} ELSE {"C01"})
                  \cup If(e.op \in {"create", "add", "rmc"}, {"C15", "C17"})
             ELSE r.v \cup (IF "sn" \in DOMAIN e THEN SnapViol(e, e, r.s) ELSE {}) \cup FaultViol(e, S)
    IN  [s |-> IF e.panic = 1 THEN S ELSE r.s,
         v |-> v \cup If(v /= {} /\ S.bombed, {"C19"}) \cup If(v /= {} /\ lost /= {}, {"C30"})
                 \cup If(v /= {} /\ (e.r \in left \/ AfterIter(e)), {"C27"})
                 \cup If(v /= {} /\ (e.th = 1 \/ Cardinality(DOMAIN regs) > 1), {"C21"})]

----------------------------------------------------------------------------
Init == l = 2 /\ regs = << >> /\ left = {} /\ lost = {} /\ base = << << >>, {} >> /\ viol = {}

Note(v, ln) == viol \cup {<<p, ln>> : p \in {q \in v : \A x \in viol : x[1] /= q}}

Next ==
    /\ l <= Len(Events)
    /\ l' = l + 1
    /\ LET e == Events[l] IN
       CASE e.op = "reset" -> regs' = << >> /\ left' = {} /\ lost' = {} /\ UNCHANGED <<base, viol>>
         [] e.op = "crash" -> regs' = << >> /\ left' = {} /\ lost' = {} /\ base' = base /\ viol' = Note(AllProps, e.ln)
         \* What follows happens in a copy of the process; afterwards everything is as it was here.
         [] e.op = "branch" -> base' = <<regs, left>> /\ UNCHANGED <<regs, left, lost, viol>>
         [] e.op = "endbranch" -> regs' = base[1] /\ left' = base[2] /\ lost' = {} /\ UNCHANGED <<base, viol>>
         \* The call whose request was refused ended the process.
         [] e.op = "aborted" -> UNCHANGED <<regs, left, lost, base, viol>>
         [] OTHER -> LET j == Judge(e) IN
                     /\ regs' = (IF e.op \in {"drop", "bombdrop"} THEN Without(regs, e.r) ELSE (e.r :> j.s) @@ regs)
                     /\ left' = (IF e.op \in {"new", "drop", "bombdrop"} THEN left \ {e.r}
                                 ELSE IF e.op = "part" THEN (IF e.ended = 1 THEN left ELSE left \cup {e.r})
                                 ELSE left)
                     /\ lost' = (IF "oom" \in DOMAIN e /\ e.oom = 1 THEN lost \cup {e.r}
                                 ELSE IF e.op \in {"new", "drop"} THEN lost \ {e.r} ELSE lost)
                     /\ base' = base
                     /\ viol' = Note(j.v, e.ln)

Spec == Init /\ [][Next]_vars

\* Component sets never hold a kind twice (of the specification's own state, i.e. of the judge).
JudgeSane == \A r \in DOMAIN regs : \A h \in Handles(regs[r]) :
                Cardinality(KindsOf(regs[r].live[h])) = Cardinality(regs[r].live[h])

Finished == l <= Len(Events) \/ PrintT(<<"VERDICT", viol>>)
\* Every event was consumed: one state per event, the initial one standing for the header.
Consumed == TLCGet("stats").diameter = Len(Events)
=============================================================================
