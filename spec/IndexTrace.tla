---------------------------- MODULE IndexTrace ----------------------------
(***************************************************************************)
(* Judges direct uses of the component-set index.  The state of an index   *)
(* is what is stored under each number: a set of component ids and the     *)
(* marks left in the storage.  Numbers are the implementation's choice,    *)
(* but a set keeps its number and its storage for ever.                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxKinds
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rs, viol
vars == <<l, rs, viol>>

Range(f) == {f[x] : x \in DOMAIN f}
Distinct(s) == Cardinality(Range(s)) = Len(s)
Init == l = 2 /\ rs = << >> /\ viol = {}

\* S: number -> <<set, marks>>
At(S, ks) == {i \in DOMAIN S : S[i][1] = ks}
Shows(x, ks, marks) == Distinct(x[1]) /\ Range(x[1]) = ks /\ x[2] = marks

FindR(e, S) ==
    LET at == At(S, Range(e.set))
        right(x) == IF at = {} THEN x = << >>
                    ELSE x /= << >> /\ LET i == CHOOSE i \in at : TRUE IN Shows(x, S[i][1], S[i][2])
    IN  [s |-> S, ok |-> right(e.got) /\ right(e.gotm)]

\* Found or created; marks are added afterwards.
Fetch(S, ks, idx, got) ==
    LET at == At(S, ks) IN
    IF at = {} THEN idx \notin DOMAIN S /\ idx >= 0 /\ Shows(got, ks, << >>)
    ELSE idx \in at /\ Shows(got, ks, S[idx][2])
Marked(S, ks, idx, m) ==
    IF idx \in DOMAIN S THEN [S EXCEPT ![idx] = <<@[1], Append(@[2], m)>>] ELSE (idx :> <<ks, <<m>>>>) @@ S

FocR(e, S) ==
    LET ks == Range(e.set) IN
    IF e.idx = -1 THEN [s |-> S, ok |-> FALSE]
    ELSE [s |-> Marked(S, ks, e.idx, e.m), ok |-> Fetch(S, ks, e.idx, e.got)]

ChangeR(e, S, add) ==
    LET can == /\ e.i \in DOMAIN S
               /\ IF add THEN e.k \notin S[e.i][1] /\ Cardinality(S[e.i][1]) < MaxKinds
                  ELSE e.k \in S[e.i][1] /\ Cardinality(S[e.i][1]) > 1
        ks == IF add THEN S[e.i][1] \cup {e.k} ELSE S[e.i][1] \ {e.k}
    IN  IF ~can THEN [s |-> S, ok |-> e.idx = -1]
        ELSE IF e.idx = -1 THEN [s |-> S, ok |-> FALSE]
        ELSE [s |-> Marked(Marked(S, {}, e.i, e.m - 1), ks, e.idx, e.m),
              ok |-> Fetch(S, ks, e.idx, e.got) /\ Shows(e.src, S[e.i][1], S[e.i][2]) /\ e.idx /= e.i]

Step(e, S) ==
    CASE e.op = "find" -> FindR(e, S)
      [] e.op = "foc" -> FocR(e, S)
      [] e.op = "addc" -> ChangeR(e, S, TRUE)
      [] e.op = "remc" -> ChangeR(e, S, FALSE)
      [] e.op = "get" -> [s |-> S, ok |-> e.i \notin DOMAIN S \/ (Shows(e.got, S[e.i][1], S[e.i][2]) /\ e.same = 1)]
      [] e.op = "inv" -> [s |-> S, ok |-> e.ok = 1]

Next ==
    /\ l <= Len(Events)
    /\ l' = l + 1
    /\ LET e == Events[l] IN
       IF e.op = "reset" THEN rs' = << >> /\ viol' = viol
       ELSE IF e.op = "search" /\ e.panic = 0 THEN UNCHANGED <<rs, viol>>
       ELSE IF e.op = "crash" \/ e.panic = 1
            THEN rs' = rs /\ viol' = IF viol = {} THEN {<<"C25", e.ln>>, <<"C16", e.ln>>} ELSE viol
       ELSE LET S == IF e.r \in DOMAIN rs THEN rs[e.r] ELSE << >>
                x == Step(e, S)
            IN  /\ rs' = (e.r :> x.s) @@ rs
                /\ viol' = IF viol = {} /\ ~x.ok THEN {<<"C25", e.ln>>, <<"C16", e.ln>>} ELSE viol
Spec == Init /\ [][Next]_vars

Finished == l <= Len(Events) \/ PrintT(<<"VERDICT", viol>>)
Consumed == TLCGet("stats").diameter = Len(Events)
=============================================================================
