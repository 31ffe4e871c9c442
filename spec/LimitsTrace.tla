---------------------------- MODULE LimitsTrace ----------------------------
(***************************************************************************)
(* Judges executions with populations up to and beyond the limits: each    *)
(* event is a bulk operation on the real registry, compared with           *)
(* LimitsCore at the real limits.                                          *)
(***************************************************************************)
EXTENDS LimitsCore, MemCore, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
NK == Len(Events[1].kinds)
Drops == {k \in 1..NK : Events[1].kinds[k][3] = 1}

RowBytes(ks) == SumOver([k \in 1..NK |-> IF k \in ks THEN Events[1].kinds[k][4] ELSE 0], NK)

VARIABLES l, regs,
          mem,     \* registry -> the populations it has reached, and the allowance of memory that gives
          viol
vars == <<l, regs, mem, viol>>

If(b, s) == IF b THEN s ELSE {}
Range(f) == {f[x] : x \in DOMAIN f}
Distinct(g) == Cardinality(Range(g)) = Len(g)
AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
             "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C27", "C28", "C29"}

\* What a failure in a state like S concerns: its size, its number of component sets.
Big(S) == If(Live(S) > 1000, {"C17"}) \cup If(SetCount(S) > 100, {"C18"})
          \cup If(Live(S) <= 1000 /\ SetCount(S) <= 100, {"C17", "C18"})

\* The values that may be dropped by a call: kind -> how many.
NoDrops == [k \in Drops |-> 0]
DropsAre(e, want) ==
    LET got(k) == LET s == {i \in DOMAIN e.dropc : e.dropc[i][1] = k}
                  IN  IF s = {} THEN 0 ELSE e.dropc[CHOOSE i \in s : TRUE][2]
    IN  \A k \in Drops : got(k) = want[k]
CohDrops(S, f(_)) == [k \in Drops |-> SumOver([i \in DOMAIN S.coh |-> IF k \in S.coh[i][1] THEN f(i) ELSE 0], Len(S.coh))]

Res(s, v, d) == [s |-> s, v |-> v, d |-> d]
\* Scripts must keep to what the counting specification covers.
Demand(b, e) == Assert(b, <<"script out of scope at line", e.ln>>)

FillR(e, S) ==
    LET ks == Range(e.g)
        ok == FillOk(S, ks, e.n)
    IN  IF Demand(Distinct(e.g) /\ ~Vague(S, ks), e)
        THEN Res(AfterFill(S, ks, e.n),
                 If(e.okn /= ok \/ e.refused /= MinN(3, e.n - ok),
                    {"C07"} \cup IF ~Usable(S, ks) THEN {"C18"} ELSE {"C17"} \cup Big(S))
                 \cup If(e.backok = 0, {"C07", "C08"} \cup IF ~Usable(S, ks) THEN {"C18"} ELSE {"C17"})
                 \cup If(e.dup /= 0, {"C01", "C02"} \cup Big(S)),
                 NoDrops)
        ELSE Res(S, {}, NoDrops)

DestroyR(e, S) ==
    LET f(i) == DestroyedOf(S, i, e.stride, e.off) IN
    Res(AfterDestroy(S, e.stride, e.off),
        If(e.okn /= e.n \/ e.n /= DestroyedTotal(S, e.stride, e.off), {"C05"} \cup Big(S)),
        CohDrops(S, f))

CycleR(e, S) ==
    LET ks == Range(e.g)
        ok == CycleOk(S, ks, e.n)
    IN  IF ~Demand(~Vague(S, ks), e) THEN Res(S, {}, NoDrops) ELSE
        Res(AfterCycle(S, ks, e.n),
            If(e.okn /= ok, {"C07"} \cup Big(S)) \cup If(e.okd /= e.okn, {"C05"} \cup Big(S))
            \cup If(e.dup /= 0, {"C01", "C02"} \cup Big(S)),
            [k \in Drops |-> IF k \in ks THEN ok ELSE 0])

\* n times an entity is created and taken out again.
TakeCycleR(e, S) ==
    LET ks == Range(e.g)
        ok == CycleOk(S, ks, e.n)
    IN  IF ~Demand(~Vague(S, ks), e) THEN Res(S, {}, NoDrops) ELSE
        Res(AfterCycle(S, ks, e.n),
            If(e.okn /= ok, {"C07"} \cup Big(S)) \cup If(e.okd /= e.okn, {"C06"} \cup Big(S))
            \cup If(e.dup /= 0, {"C01", "C02"} \cup Big(S)),
            NoDrops)

\* n times m entities are created, and then all ended: destroyed in some order, or taken out.
WavesR(e, S) ==
    LET ks == Range(e.g)
        ok == WavesOk(S, ks, e.m, e.n)
        gone == IF e.ord = 3 THEN {"C06"} ELSE {"C05"}
    IN  IF ~Demand(~Vague(S, ks), e) THEN Res(S, {}, NoDrops) ELSE
        Res(AfterWaves(S, ks, e.m, e.n),
            If(e.okn /= ok, {"C07"} \cup Big(S)) \cup If(e.okd /= e.okn, gone \cup Big(S))
            \cup If(e.dup /= 0, {"C01", "C02"} \cup Big(S)),
            [k \in Drops |-> IF k \in ks /\ e.ord /= 3 THEN ok ELSE 0])

\* n times an entity of a cohort gets a component and loses it.
SpinR(e, S) ==
    LET to == S.coh[e.c][1] \cup {e.k}
        can == CanAdd(S, S.coh[e.c][1], e.k)
    IN  IF ~Demand(~Vague(S, to) /\ S.coh[e.c][2] > 0, e) THEN Res(S, {}, NoDrops) ELSE
        Res(IF can /\ e.n > 0 THEN Use(S, to) ELSE S,
            If(e.okn /= (IF can THEN e.n ELSE 0) \/ e.okd /= e.okn \/ e.bad /= 0, {"C04"} \cup Big(S)),
            NoDrops)

\* Calls that change nothing.
IdleR(e, S) == Res(S, If(e.bad /= 0, {"C03", "C09", "C10", "C16", "C27"} \cup Big(S)), NoDrops)

CheckR(e, S) ==
    LET ks == Range(e.g)
        rows == SumOver([i \in DOMAIN S.coh |-> IF ks \subseteq S.coh[i][1] THEN S.coh[i][2] ELSE 0], Len(S.coh))
    IN  Res(S,
            If(e.rows /= rows, {"C02", "C09", "C16"} \cup Big(S))
            \cup If(e.bad /= 0, {"C03", "C09", "C12"} \cup Big(S))
            \cup If(e.en /= Live(S) \/ e.enbad /= 0, {"C02"} \cup Big(S)),
            NoDrops)

\* Every kind of iteration of one group: matching, filtered (at most m components) and exact, each in
\* four variants (without and with entities, shared and changing).
AllR(e, S) ==
    LET ks == Range(e.g)
        rows(P(_)) == SumOver([i \in DOMAIN S.coh |-> IF P(S.coh[i][1]) THEN S.coh[i][2] ELSE 0], Len(S.coh))
        M(x) == ks \subseteq x
        F(x) == ks \subseteq x /\ Cardinality(x) <= e.m
        X(x) == ks = x
        want == << rows(M), rows(F), rows(X) >>
        prop == << {"C09", "C02"}, {"C10"}, {"C11"} >>
        wrong(q) == \E i \in 4 * q - 3 .. 4 * q : e.rows[i] /= want[q]
        bad(I) == \E i \in I : e.bad[i] /= 0
    IN  Res(S,
            UNION {If(wrong(q), prop[q] \cup {"C16"} \cup Big(S)) : q \in 1..3}
            \cup UNION {If(bad(4 * q - 3 .. 4 * q), prop[q] \cup {"C03"} \cup Big(S)) : q \in 1..3}
            \cup If(bad({3, 4, 7, 8, 11, 12}) \/ bad(1..12), {"C12"}),
            NoDrops)

\* Components changed through references, of the whole group and of single kinds, and the tests.
PokeR(e, S) ==
    LET ks == Range(e.g)
        rows(x) == SumOver([i \in DOMAIN S.coh |-> IF x \subseteq S.coh[i][1] THEN S.coh[i][2] ELSE 0], Len(S.coh))
        want == << rows(ks), SumOver([i \in DOMAIN e.g |-> rows({e.g[i]})], Len(e.g)), rows(ks) >>
    IN  Res(S,
            If(e.rows /= want \/ e.bad /= 0, {"C01", "C03", "C12"} \cup Big(S)),
            NoDrops)

\* Several threads read one registry at the same time, each its group.
RaceR(e, S) ==
    LET rows(x) == SumOver([i \in DOMAIN S.coh |-> IF x \subseteq S.coh[i][1] THEN S.coh[i][2] ELSE 0], Len(S.coh)) IN
    Res(S,
        If(e.rows /= [i \in DOMAIN e.gs |-> rows(Range(e.gs[i]))], {"C09", "C21"})
        \cup If(e.bad /= 0, {"C01", "C03", "C21"}),
        NoDrops)

\* Entities of any two sets changed in turn, and changed back.
FlipsR(e, S) ==
    IF ~Demand(FlipsFit(S, e.k) /\ \A ks \in FlipSets(S, e.k) : ~Vague(S, ks), e) THEN Res(S, {}, NoDrops) ELSE
    Res(AfterFlips(S, e.k),
        If(e.okn /= FlipsOk(S, e.k) \/ e.okd /= e.okn, {"C04"} \cup Big(S))
        \cup If(e.bad /= 0, {"C03", "C04"} \cup Big(S)),
        NoDrops)

ChangeR(e, S, add) ==
    LET n == S.coh[e.c][2]
        to == IF add THEN S.coh[e.c][1] \cup {e.k} ELSE S.coh[e.c][1] \ {e.k}
        ok == ChangeOk(S, e.c, e.k, add)
    IN  IF ~Demand(~Vague(S, to), e) THEN Res(S, {}, NoDrops) ELSE
        Res(AfterChange(S, e.c, e.k, add),
            If(e.n /= n \/ e.okn /= ok \/ e.refused /= n - ok, {"C04"} \cup Big(S))
            \cup If(e.bad /= 0, {"C03", "C04", "C08"} \cup Big(S)),
            NoDrops)

TakeAllR(e, S) ==
    Res(AfterTakeAll(S, e.c, Range(e.g)),
        If(e.n /= S.coh[e.c][2] \/ e.okn /= TakeAllOk(S, e.c, Range(e.g)), {"C06"} \cup Big(S))
        \cup If(e.bad /= 0, {"C03", "C06"} \cup Big(S)),
        NoDrops)

WalkR(e, S) ==
    LET first == e.g[1]
        rest == Range(e.g) \ {first}
        full == WalkComplete(S, first, rest)
    IN  IF Demand(/\ Distinct(e.g)
                  /\ S.coh[e.c][1] = {first} /\ S.coh[e.c][2] > 0
                  /\ e.max > FamSize(Cardinality(rest))
                  /\ WalkApart(S, first, rest)
                  /\ full \/ WalkPlain(S, first, rest), e)
        THEN Res(AfterWalk(S, first, rest),
                 If(e.visited /= WalkVisits(S, first, rest) \/ (e.refused = 0) /= full, {"C04", "C16", "C18"})
                 \cup If(e.bad /= 0, {"C03", "C04", "C16", "C18"}),
                 NoDrops)
        ELSE Res(S, {}, NoDrops)

DropR(e, S) ==
    LET f(i) == S.coh[i][2] IN Res(Fresh0, {}, CohDrops(S, f))

Step(e, S) ==
    CASE e.op = "new" -> Res(Fresh0, {}, NoDrops)
      [] e.op = "fill" -> FillR(e, S)
      [] e.op = "bdestroy" -> DestroyR(e, S)
      [] e.op = "cycle" -> CycleR(e, S)
      [] e.op = "tcycle" -> TakeCycleR(e, S)
      [] e.op = "waves" -> WavesR(e, S)
      [] e.op = "spin" -> SpinR(e, S)
      [] e.op = "idle" -> IdleR(e, S)
      [] e.op = "check" -> CheckR(e, S)
      [] e.op = "all" -> AllR(e, S)
      [] e.op = "poke" -> PokeR(e, S)
      [] e.op = "flips" -> FlipsR(e, S)
      [] e.op = "race" -> RaceR(e, S)
      [] e.op = "badd" -> ChangeR(e, S, TRUE)
      [] e.op = "brmc" -> ChangeR(e, S, FALSE)
      [] e.op = "btake" -> TakeAllR(e, S)
      [] e.op = "walk" -> WalkR(e, S)
      [] e.op = "drop" -> DropR(e, S)
      [] e.op = "mv" -> Res(S, {}, NoDrops)

OpProps(e) ==
    CASE e.op = "fill" -> {"C07"} [] e.op = "cycle" -> {"C05", "C07"} [] e.op = "bdestroy" -> {"C05"}
      [] e.op = "waves" -> {"C05", "C06", "C07"}
      [] e.op = "tcycle" -> {"C06", "C07"} [] e.op = "idle" -> {"C03", "C27"}
      [] e.op \in {"badd", "brmc", "walk", "spin", "flips"} -> {"C04"} [] e.op = "btake" -> {"C06"}
      [] e.op = "poke" -> {"C03", "C12"} [] e.op = "race" -> {"C03", "C09", "C21"}
      [] e.op = "all" -> {"C09", "C10", "C11", "C12"} [] OTHER -> {}

----------------------------------------------------------------------------
(* Memory.  After each call the populations reached follow from the state   *)
(* before and after it; only the set the call concerns can have grown.      *)

NoMem == [pk |-> << >>, top |-> 0, kib |-> 0, call |-> << >>, held |-> 0]
Count(S, ks) == SumOver([i \in DOMAIN S.coh |-> IF S.coh[i][1] = ks THEN S.coh[i][2] ELSE 0], Len(S.coh))
Grew(m, ks, n) ==
    LET was == IF ks \in DOMAIN m.pk THEN SetKiB(m.pk[ks], RowBytes(ks)) ELSE 0 IN
    IF ks \in DOMAIN m.pk /\ m.pk[ks] >= n THEN m
    ELSE [m EXCEPT !.pk = (ks :> n) @@ @, !.kib = @ - was + SetKiB(n, RowBytes(ks))]
RECURSIVE GrewAll(_, _)
GrewAll(m, q) == IF q = {} THEN m ELSE LET x == CHOOSE x \in q : TRUE IN GrewAll(Grew(m, x[1], x[2]), q \ {x})
Held(e, S) == IF e.n = 0 THEN 0 ELSE FillOk(S, Range(e.g), e.m)
MemAfter(m, e, S, T) ==
    LET n == CASE e.op = "fill" -> Grew(m, Range(e.g), Count(T, Range(e.g)))
               [] e.op \in {"cycle", "tcycle"} -> Grew(m, Range(e.g), Count(S, Range(e.g)) + 1)
               [] e.op = "waves" -> Grew(m, Range(e.g), Count(S, Range(e.g)) + Held(e, S))
               [] e.op \in {"badd", "brmc"} -> Grew(m, T.coh[e.c][1], Count(T, T.coh[e.c][1]))
               [] e.op = "spin" -> LET to == S.coh[e.c][1] \cup {e.k} IN Grew(m, to, Count(S, to) + 1)
               [] e.op = "flips" -> IF FlipCohorts(S) < 2 THEN m ELSE
                      GrewAll(m, {<<ks, Count(S, ks) + 2>> : ks \in {Flipped(S.coh[i][1], e.k) : i \in Flippable(S, e.k)}})
               [] e.op = "walk" -> [m EXCEPT !.kib = @ + (SetCount(T) - SetCount(S)) * SetKiB(1, RowBytes(Range(e.g)))]
               [] e.op \in {"new", "drop"} -> NoMem
               [] OTHER -> m
        live == Live(T) + (CASE e.op \in {"cycle", "tcycle"} -> 1 [] e.op = "waves" -> Held(e, S) [] OTHER -> 0)
    IN  IF live > n.top THEN [n EXCEPT !.top = live] ELSE n
\* The same call made again: it reaches no population that the first one has not reached.
CallOf(e) == CASE e.op \in {"cycle", "tcycle", "idle"} -> <<e.op, e.g, e.n>>
               [] e.op = "walk" -> <<e.op, <<e.g, e.c>>, e.max>>
               [] e.op = "check" -> <<e.op, e.g, 0>>
               [] e.op = "all" -> <<e.op, e.g, e.m>>
               [] e.op = "waves" -> <<e.op, <<e.g, e.m, e.ord>>, e.n>>
               [] e.op = "spin" -> <<e.op, <<e.c, e.k>>, e.n>>
               [] OTHER -> << >>
Again(e, m) == CallOf(e) /= << >> /\ m.call = CallOf(e)
MemOk(e, m) == e.mem <= m.kib + TableKiB(m.top)

Judge(e) ==
    LET S == IF e.r \in DOMAIN regs THEN regs[e.r] ELSE Fresh0
        r == Step(e, S)
        old == IF e.r \in DOMAIN mem THEN mem[e.r] ELSE NoMem
        m == MemAfter(old, e, S, r.s)
        v == IF e.panic = 1
             THEN {"C17", "C18", "C28"} \cup OpProps(e)
             ELSE r.v \cup If(e.alive /= Live(r.s), {"C02"} \cup OpProps(e) \cup Big(S))
                      \cup If(~DropsAre(e, r.d), {"C08"} \cup Big(S))
                      \cup If(e.faults /= << >>, {"C20"} \cup Big(S))
                      \cup If(~MemOk(e, m), {"C29"})
                      \cup If(Again(e, old) /\ e.mem > old.held + 2, {"C29"})
    IN  [m |-> [m EXCEPT !.call = CallOf(e), !.held = IF e.panic = 1 THEN @ ELSE IF e.mem > @ \/ e.op \in {"new", "drop"} THEN e.mem ELSE @],
         s |-> IF e.panic = 1 THEN S ELSE r.s,
         v |-> v \cup If(v /= {} /\ (e.th = 1 \/ Cardinality(DOMAIN regs) > 1), {"C21"})]

Init == l = 2 /\ regs = << >> /\ mem = << >> /\ viol = {}

Note(v, ln) == viol \cup {<<p, ln>> : p \in {q \in v : \A x \in viol : x[1] /= q}}

Next ==
    /\ l <= Len(Events)
    /\ l' = l + 1
    /\ LET e == Events[l] IN
       CASE e.op = "reset" -> regs' = << >> /\ mem' = << >> /\ viol' = viol
         [] e.op = "crash" -> regs' = << >> /\ mem' = << >> /\ viol' = Note(AllProps, e.ln)
         [] OTHER -> LET j == Judge(e) IN
                     /\ regs' = (IF e.op = "drop" THEN [r \in DOMAIN regs \ {e.r} |-> regs[r]] ELSE (e.r :> j.s) @@ regs)
                     /\ mem' = (e.r :> j.m) @@ mem
                     /\ viol' = Note(j.v, e.ln)

Spec == Init /\ [][Next]_vars

Finished == l <= Len(Events) \/ PrintT(<<"VERDICT", viol>>)
Consumed == TLCGet("stats").diameter = Len(Events)
=============================================================================
