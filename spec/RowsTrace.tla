------------------------------ MODULE RowsTrace -----------------------------
(***************************************************************************)
(* Judges direct uses of the storage of one component set (property C24).  *)
(* The state of a register is the set it stores (ks, a sorted sequence of  *)
(* kinds) and its rows: a handle and one value per kind.  After every call *)
(* the storage's length, capacity, fullness, handles, values, destructor   *)
(* runs and allocator requests are compared.  How far capacity grows is    *)
(* the implementation's choice.                                            *)
(***************************************************************************)
EXTENDS RowsCore, Integers, FiniteSets, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Doms == Events[1].doms
Range(f) == {f[x] : x \in DOMAIN f}
Dropping == Range(Events[1].dropping)
MaxRows == 16777215

VARIABLES l, rs, viol
vars == <<l, rs, viol>>
Init == l = 2 /\ rs = << >> /\ viol = {}

Pos(ks, k) == CHOOSE i \in DOMAIN ks : ks[i] = k
\* The values of a row in the order of group g, and back.
Pick(v, ks, g) == [i \in DOMAIN g |-> v[Pos(ks, g[i])]]
Put(v, ks, g, t) == [i \in DOMAIN ks |-> IF ks[i] \in Range(g) THEN t[Pos(g, ks[i])] ELSE v[i]]
Lay(ks, g, t) == [i \in DOMAIN ks |-> t[Pos(g, ks[i])]]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Count(a, x) = Count(b, x)

RECURSIVE DropsOfRows(_, _)
DropsOf(ks, v) ==
    LET is == SelectSeq([i \in DOMAIN ks |-> i], LAMBDA i : ks[i] \in Dropping)
    IN  [n \in DOMAIN is |-> <<ks[is[n]], v[is[n]]>>]
DropsOfRows(ks, rows) ==
    IF rows = << >> THEN << >> ELSE DropsOf(ks, Head(rows).v) \o DropsOfRows(ks, Tail(rows))

Shows(x, S) ==
    LET R == S[x.r] IN
    /\ Range(x.set) = Range(R.ks)
    /\ x.ks = R.ks
    /\ x.len = Len(R.rows)
    /\ x.cap >= x.len
    /\ x.full = (IF x.len = x.cap THEN 1 ELSE 0)
    /\ x.full_seen = 1 =>
        /\ x.ents = [i \in DOMAIN R.rows |-> R.rows[i].h]
        /\ x.rows = [i \in DOMAIN R.rows |-> R.rows[i].v]

\* What a call must leave behind: state s, destructor runs d, answer ok.
Res(S, r, rows, d, ok) == [s |-> [S EXCEPT ![r].rows = rows], d |-> d, ok |-> ok]

Use(e, S) ==
    LET ks == S[e.r].ks
        rows == S[e.r].rows
        has(i) == i < Len(rows)
        keep(ok) == [s |-> S, d |-> << >>, ok |-> ok]
    IN
    IF e.norow = 1 THEN keep(FALSE)
    ELSE CASE
       e.op \in {"push", "pushu"} ->
            Res(S, e.r, Pushed(rows, [h |-> e.h, v |-> Lay(ks, e.g, e.t)]), << >>, e.row = Len(rows))
    [] e.op = "over" /\ has(e.i) ->
            Res(S, e.r, Overwritten(rows, e.i, [h |-> e.h, v |-> Lay(ks, e.g, e.t)]), << >>,
                e.old = Pick(Row(rows, e.i).v, ks, e.g))
    [] e.op = "sing" /\ has(e.i) ->
            Res(S, e.r, Overwritten(rows, e.i, [Row(rows, e.i) EXCEPT !.v[Pos(ks, e.k)] = e.t]), << >>,
                e.old = Row(rows, e.i).v[Pos(ks, e.k)])
    [] e.op = "sdrop" /\ has(e.i) ->
            Res(S, e.r, SwapRemoved(rows, e.i), DropsOf(ks, Row(rows, e.i).v), e.flag = Relocated(rows, e.i))
    [] e.op = "srem" /\ has(e.i) ->
            Res(S, e.r, SwapRemoved(rows, e.i), << >>,
                e.flag = Relocated(rows, e.i) /\ e.old = Pick(Row(rows, e.i).v, ks, e.g))
    [] e.op = "tolast" /\ has(e.i) ->
            Res(S, e.r, ToLast(rows, e.i), << >>, e.flag = Relocated(rows, e.i))
    [] e.op = "swap" /\ has(e.i) /\ has(e.j) ->
            Res(S, e.r, Exchanged(rows, e.i, e.j), << >>, TRUE)
    [] e.op = "get" /\ has(e.i) -> keep(e.got = Pick(Row(rows, e.i).v, ks, e.g))
    [] e.op = "getm" /\ has(e.i) ->
            LET x == Row(rows, e.i)
            IN  Res(S, e.r, IF e.t = << >> THEN rows ELSE Overwritten(rows, e.i, [x EXCEPT !.v = Put(x.v, ks, e.g, e.t)]),
                    << >>, e.got = Pick(x.v, ks, e.g))
    [] e.op = "gets" /\ has(e.i) ->
            LET t == Row(rows, e.i).v[Pos(ks, e.k)] IN keep(e.got = <<t, t>>)
    [] e.op \in {"slices", "bump"} ->
            LET cols == [c \in DOMAIN e.g |-> [i \in DOMAIN rows |-> rows[i].v[Pos(ks, e.g[c])]]]
                up(x) == [i \in DOMAIN ks |-> IF ks[i] \in Range(e.g) THEN (x.v[i] + 1) % Doms[ks[i]] ELSE x.v[i]]
            IN  Res(S, e.r, IF e.op = "bump" THEN [i \in DOMAIN rows |-> [rows[i] EXCEPT !.v = up(rows[i])]] ELSE rows,
                    << >>, e.cols = cols /\ e.same = 1)
    [] e.op = "clear" -> Res(S, e.r, << >>, DropsOfRows(ks, rows), TRUE)
    [] e.op = "snap" -> keep(TRUE)
    [] e.op = "move" /\ has(e.i) ->
            LET x == Row(rows, e.i)
                kd == S[e.s].ks
                fresh == SelectSeq(kd, LAMBDA k : k \notin Range(ks))
                v == [i \in DOMAIN kd |-> IF kd[i] \in Range(ks) THEN x.v[Pos(ks, kd[i])] ELSE e.t[Pos(fresh, kd[i])]]
            IN  [s |-> [S EXCEPT ![e.r].rows = SwapRemoved(rows, e.i), ![e.s].rows = Pushed(@, [h |-> e.h, v |-> v])],
                 d |-> << >>,
                 ok |-> /\ e.row = Len(S[e.s].rows)
                        /\ e.flag = Relocated(rows, e.i)
                        /\ e.gone = SelectSeq(ks, LAMBDA k : k \notin Range(kd))
                        /\ e.old = Pick(x.v, ks, e.gone)]
    [] OTHER -> keep(FALSE)

Step(e, S) ==
    CASE e.op = "anew" ->
            LET x == e.st[1] IN
            [s |-> (e.r :> [ks |-> x.ks, rows |-> << >>]) @@ S, d |-> << >>,
             ok |-> IF e.want = -1 THEN TRUE
                    ELSE IF e.want = 0 \/ e.want > MaxRows THEN x.cap = 0 ELSE x.cap >= e.want]
      [] e.op = "adrop" ->
            [s |-> [r \in DOMAIN S \ {e.r} |-> S[r]], d |-> DropsOfRows(S[e.r].ks, S[e.r].rows), ok |-> e.live = 0]
      [] OTHER -> Use(e, S)

Bad(e, x) ==
    (IF ~x.ok \/ \E i \in DOMAIN e.st : ~Shows(e.st[i], x.s) THEN {"C24"} ELSE {})
    \cup (IF ~SameBag(x.d, e.drops) THEN {"C24", "C08"} ELSE {})
    \cup (IF e.faults /= << >> \/ e.reff /= << >> THEN {"C24", "C20"} ELSE {})

Next ==
    /\ l <= Len(Events)
    /\ l' = l + 1
    /\ LET e == Events[l] IN
       IF e.op = "reset" THEN rs' = << >> /\ viol' = viol
       ELSE IF viol /= {} THEN UNCHANGED <<rs, viol>>
       ELSE IF e.op = "crash" \/ e.panic = 1 THEN rs' = rs /\ viol' = {<<"C24", e.ln>>, <<"C20", e.ln>>}
       ELSE LET x == Step(e, rs)
            IN  rs' = x.s /\ viol' = {<<p, e.ln>> : p \in Bad(e, x)}
Spec == Init /\ [][Next]_vars

Finished == l <= Len(Events) \/ PrintT(<<"VERDICT", viol>>)
Consumed == TLCGet("stats").diameter = Len(Events)
=============================================================================
