---------------------------- MODULE TableTrace ----------------------------
(***************************************************************************)
(* Judges direct uses of the entity table: a handle resolves exactly while *)
(* its entity lives, to the location last recorded for it.                 *)
(* The state reuses EcsCore: the "components" of an entity are the pair    *)
(* <<row, storage>> of its location.                                       *)
(***************************************************************************)
EXTENDS EcsCore, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ts, viol
vars == <<l, ts, viol>>

\* In bulk, entities are counted only: n entities created (all with known locations), `left' of them
\* alive after the bulk destruction.
Init == l = 2 /\ ts = << >> /\ viol = {}

B(b) == IF b THEN 1 ELSE 0
If(b, s) == IF b THEN s ELSE {}
Room(S) == Cardinality(Handles(S)) < MaxEnt

\* Location as the table reports it: <<version, row, storage, valid>>.
Want(S, h) == IF IsLive(S, h) THEN <<h[2], S.live[h][1], S.live[h][2], 1>> ELSE << >>

SnapOk(e, S) ==
    /\ \A x \in Range(e.snap) : x[2] = Want(S, x[1])
    /\ Len(e.en) = Cardinality(Handles(S)) /\ Range(e.en) = Handles(S)
    /\ e.en2 = Len(e.en)

Step(e, S) ==
    CASE e.op = "create" ->
            IF e.ok = 1 THEN [s |-> AfterCreate(S, e.h, e.loc), ok |-> Room(S) /\ e.can = 1 /\ Fresh(S, e.h)]
            ELSE [s |-> S, ok |-> ~Room(S) /\ e.can = 0]
      [] e.op = "destroy" ->
            IF IsLive(S, e.h) THEN [s |-> AfterEnd(S, e.h), ok |-> e.ok = 1] ELSE [s |-> S, ok |-> e.ok = 0]
      [] e.op = "look" -> [s |-> S, ok |-> e.e = Want(S, e.h)]
      [] e.op = "set" ->
            IF IsLive(S, e.h)
            THEN [s |-> AfterSet(S, e.h, <<IF e.what \in {1, 3} THEN e.loc[1] ELSE S.live[e.h][1],
                                          IF e.what \in {2, 3} THEN e.loc[2] ELSE S.live[e.h][2]>>), ok |-> e.ok = 1]
            ELSE [s |-> S, ok |-> e.ok = 0]

\* Bulk events stand alone: the table was empty before the first of them; S counts.
Bulk(e, S) ==
    LET n == S.n IN
    IF e.op = "fill"
    THEN LET ok == MinOf(e.n, MaxEnt - n) IN
         [s |-> [n |-> n + ok], ok |-> /\ e.okn = ok /\ e.can = B(n + ok < MaxEnt) /\ e.wrongcan = 0 /\ e.dup = 0
                                       /\ e.bad = 0 /\ e.en = n + ok]
    ELSE [s |-> [n |-> n - e.n], ok |-> e.okn = e.n /\ e.stale = 0 /\ e.can = B(n - e.n < MaxEnt) /\ e.en = n - e.n]

Next ==
    /\ l <= Len(Events)
    /\ l' = l + 1
    /\ LET e == Events[l] IN
       IF e.op = "reset" THEN ts' = << >> /\ viol' = viol
       ELSE IF e.op = "crash" \/ e.panic = 1
            THEN ts' = ts /\ viol' = IF viol = {} THEN {<<"C25", e.ln>>} ELSE viol
       ELSE IF "none" \in DOMAIN e THEN UNCHANGED <<ts, viol>>
       ELSE LET bulk == e.op \in {"fill", "mdestroy"}
                S == IF e.r \in DOMAIN ts THEN ts[e.r] ELSE IF bulk THEN [n |-> 0] ELSE Empty
                x == IF bulk THEN Bulk(e, S) ELSE Step(e, S)
            IN  /\ ts' = (e.r :> x.s) @@ ts
                /\ viol' = IF viol = {} /\ ~(x.ok /\ (bulk \/ SnapOk(e, x.s))) THEN {<<"C25", e.ln>>} ELSE viol
Spec == Init /\ [][Next]_vars

Finished == l <= Len(Events) \/ PrintT(<<"VERDICT", viol>>)
Consumed == TLCGet("stats").diameter = Len(Events)
=============================================================================
