------------------------------ MODULE DescTrace -----------------------------
(***************************************************************************)
(* Judges descriptions of component sets built by the real code (C22).     *)
(* Registers hold sets; `seen' remembers, for every set described so far,  *)
(* its identifier and the order its components are listed in: both may     *)
(* depend on nothing else.                                                 *)
(***************************************************************************)
EXTENDS DescCore, Integers, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rs, seen, viol
vars == <<l, rs, seen, viol>>
Init == l = 2 /\ rs = << >> /\ seen = << >> /\ viol = {}

Ids(x) == [i \in DOMAIN x.comps |-> x.comps[i][1]]
Size(id) == (id * 7) % 997
Align(id) == 2 ^ (id % 8)
Shows(x, S) ==
    /\ x.valid = 1 /\ x.idvalid = 1
    /\ x.len = Cardinality(S) /\ Len(x.comps) = x.len
    /\ Range(Ids(x)) = S /\ x.raw = Ids(x)
    /\ \A c \in Range(x.comps) : c[2] = Size(c[1]) /\ c[3] = Align(c[1])
    /\ S \in DOMAIN seen => seen[S] = <<x.id, Ids(x)>>
Note(x, S) == IF S \in DOMAIN seen THEN seen ELSE (S :> <<x.id, Ids(x)>>) @@ seen
Without(f, d) == [x \in DOMAIN f \ {d} |-> f[x]]
Set(d, S) == (d :> S) @@ rs

Nothing(ok) == [rs |-> rs, seen |-> seen, ok |-> ok]
Step(e) ==
    CASE e.op = "grp" ->
            IF Describable(e.ids)
            THEN [rs |-> Set(e.d, Range(e.ids)), seen |-> Note(e.got, Range(e.ids)),
                  ok |-> /\ e.gvalid = 1 /\ e.glen = Len(e.ids)
                         /\ Shows(e.got, Range(e.ids))
                         /\ Len(e.u2s) = Len(e.ids) /\ Len(e.s2u) = Len(e.ids)
                         /\ \A i \in DOMAIN e.ids :
                                /\ e.u2s[i] < Len(e.ids) /\ e.got.comps[e.u2s[i] + 1][1] = e.ids[i]
                                /\ e.s2u[i] < Len(e.ids) /\ e.ids[e.s2u[i] + 1] = e.got.comps[i][1]]
            ELSE [rs |-> Without(rs, e.d), seen |-> seen, ok |-> e.gvalid = 0 /\ e.got.valid = 0]
      [] e.op = "one" -> [rs |-> Set(e.d, Range(e.ids)), seen |-> Note(e.got, Range(e.ids)), ok |-> Shows(e.got, Range(e.ids))]
      [] e.op \in {"add", "addt", "rem"} ->
            IF e.skip = 1 THEN Nothing(e.e \notin DOMAIN rs)
            ELSE IF e.e \notin DOMAIN rs THEN Nothing(FALSE)
            ELSE LET S == rs[e.e]
                     can == IF e.op = "rem" THEN CanRemove(S, e.k) ELSE CanAdd(S, e.k)
                     R == IF e.op = "rem" THEN S \ {e.k} ELSE S \cup {e.k}
                 IN  IF can THEN [rs |-> Set(e.d, R), seen |-> Note(e.got, R),
                                  ok |-> e.some = 1 /\ Shows(e.got, R) /\ Shows(e.src, S)]
                     ELSE [rs |-> Without(rs, e.d), seen |-> seen, ok |-> e.some = 0 /\ Shows(e.src, S)]
      [] e.op = "pair" ->
            IF e.skip = 1 THEN Nothing(e.d \notin DOMAIN rs \/ e.e \notin DOMAIN rs)
            ELSE Nothing(/\ e.d \in DOMAIN rs /\ e.e \in DOMAIN rs
                         /\ e.sub = (IF Includes(rs[e.d], rs[e.e]) THEN 1 ELSE 0)
                         /\ e.exc = (IF Excludes(rs[e.d], rs[e.e]) THEN 1 ELSE 0))
      [] e.op = "has" ->
            IF e.skip = 1 THEN Nothing(e.d \notin DOMAIN rs)
            ELSE Nothing(e.d \in DOMAIN rs /\ Range(e.has) = Range(e.typed) \cap rs[e.d])
      [] e.op = "inv" -> Nothing(e.ok = 1)

Next ==
    /\ l <= Len(Events)
    /\ l' = l + 1
    /\ LET e == Events[l] IN
       IF e.op = "reset" THEN rs' = << >> /\ UNCHANGED <<seen, viol>>
       ELSE IF viol /= {} THEN UNCHANGED <<rs, seen, viol>>
       ELSE IF e.op = "crash" \/ e.panic = 1 THEN UNCHANGED <<rs, seen>> /\ viol' = {<<"C22", e.ln>>}
       ELSE LET x == Step(e)
            IN  rs' = x.rs /\ seen' = x.seen /\ viol' = IF x.ok THEN {} ELSE {<<"C22", e.ln>>}
Spec == Init /\ [][Next]_vars

Finished == l <= Len(Events) \/ PrintT(<<"VERDICT", viol>>)
Consumed == TLCGet("stats").diameter = Len(Events)
=============================================================================
