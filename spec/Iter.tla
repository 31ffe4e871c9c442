-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* Iterators over a registry, as the implementation builds them: a cursor  *)
(* into the index of component sets (a level per number of components, a   *)
(* list of sets in each level), stepped one set at a time.                 *)
(*                                                                         *)
(* Several shared iterators, or one that changes what it yields, exist at  *)
(* once.  Each may be stepped at any time, given up, stepped after it has  *)
(* ended, or be ended by its predicate panicking.  Checked: what every     *)
(* iterator yields is the answer to its query, or a part of it, each set   *)
(* at most once; iterators do not disturb each other; the registry is as   *)
(* before except for the changes made through what was yielded; every      *)
(* step comes to an end and ended iterators stay ended.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NKinds,   \* kinds of components
          Iters,    \* names of iterators
          Asks      \* predicates: "any" (every set of component sets), "some" or "few"

Kinds == 1..NKinds
Sets == SUBSET Kinds \ {{}}
Max == NKinds                     \* levels
OfSize(n) == {s \in Sets : Cardinality(s) = n}
Lists(X) == UNION {{q \in [1..n -> X] : \A i, j \in 1..n : i /= j => q[i] /= q[j]} : n \in 0..Cardinality(X)}

VARIABLES maps,    \* level -> list of component sets in use
          val,     \* component set in use -> value of its rows (modulo 2)
          it,      \* iterator -> its cursor, or Closed
          \* what follows is not part of the implementation
          got,     \* iterator -> what it yielded
          over     \* iterator -> "no", "ended" (returned nothing), "panicked"
vars == <<maps, val, it, got, over>>

InUse == UNION {{maps[n][j] : j \in DOMAIN maps[n]} : n \in 1..Max}
Closed == [lev |-> 0, idx |-> 0, g |-> {}, p |-> {}, mut |-> FALSE, bang |-> {}]
Open(i) == it[i] /= Closed
Preds == IF Asks = "any" THEN SUBSET InUse
         ELSE IF Asks = "few" THEN {InUse, {s \in InUse : 1 \notin s}}
         ELSE {InUse, {}} \cup {{s \in InUse : k \in s} : k \in Kinds} \cup {{s \in InUse : k \notin s} : k \in Kinds}

Init ==
    /\ maps \in {m \in [1..Max -> UNION {Lists(OfSize(n)) : n \in 1..Max}] :
                   \A n \in 1..Max : \A j \in DOMAIN m[n] : Cardinality(m[n][j]) = n}
    /\ val = [s \in InUse |-> 0]
    /\ it = [i \in Iters |-> Closed]
    /\ got = [i \in Iters |-> << >>]
    /\ over = [i \in Iters |-> "no"]

\* One step of the cursor: to the next set that matches and that the predicate accepts.
RECURSIVE Seek(_, _, _)
Seek(c, lev, idx) ==
    IF lev > Max THEN [hit |-> FALSE, bang |-> FALSE, lev |-> lev, idx |-> idx, at |-> {}]
    ELSE IF idx > Len(maps[lev]) THEN Seek(c, lev + 1, 1)
    ELSE LET s == maps[lev][idx] IN
         IF ~(c.g \subseteq s) THEN Seek(c, lev, idx + 1)
         ELSE IF s \in c.bang THEN [hit |-> FALSE, bang |-> TRUE, lev |-> lev, idx |-> idx + 1, at |-> s]
         ELSE IF s \in c.p THEN [hit |-> TRUE, bang |-> FALSE, lev |-> lev, idx |-> idx + 1, at |-> s]
         ELSE Seek(c, lev, idx + 1)

Begin(i, g, p, mut, bang) ==
    /\ ~Open(i)
    /\ \A j \in Iters : Open(j) => ~mut /\ ~it[j].mut      \* the borrowing rules
    /\ it' = [it EXCEPT ![i] = [lev |-> Cardinality(g), idx |-> 1, g |-> g, p |-> p, mut |-> mut, bang |-> bang]]
    /\ got' = [got EXCEPT ![i] = << >>] /\ over' = [over EXCEPT ![i] = "no"]
    /\ UNCHANGED maps
    /\ val' = IF mut THEN [s \in InUse |-> 0] ELSE val      \* (the caller's doing, to have something to compare with)

Step(i) ==
    /\ Open(i)
    /\ LET c == it[i]
           r == Seek(c, c.lev, c.idx)
       IN  /\ it' = [it EXCEPT ![i] = [c EXCEPT !.lev = r.lev, !.idx = r.idx]]
           /\ got' = IF r.hit THEN [got EXCEPT ![i] = Append(@, r.at)] ELSE got
           /\ over' = IF r.hit THEN over ELSE [over EXCEPT ![i] = IF r.bang THEN "panicked" ELSE IF @ = "panicked" THEN @ ELSE "ended"]
           /\ val' = IF r.hit /\ c.mut THEN [val EXCEPT ![r.at] = (@ + 1) % 2] ELSE val
    /\ UNCHANGED maps

GiveUp(i) ==
    /\ Open(i) /\ it' = [it EXCEPT ![i] = Closed]
    /\ got' = [got EXCEPT ![i] = << >>] /\ over' = [over EXCEPT ![i] = "no"]
    /\ UNCHANGED <<maps, val>>

Next == \E i \in Iters :
    \/ \E g \in Sets, p \in Preds, mut \in BOOLEAN, b \in {{}} \cup {{s} : s \in InUse} : Begin(i, g, p, mut, b)
    \/ Step(i)
    \/ GiveUp(i)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Answer(c) == {s \in InUse : c.g \subseteq s /\ s \in c.p}
Yielded(i) == {got[i][j] : j \in DOMAIN got[i]}

Once == \A i \in Iters : Open(i) => Cardinality(Yielded(i)) = Len(got[i])
Right == \A i \in Iters : Open(i) => Yielded(i) \subseteq Answer(it[i])
Whole == \A i \in Iters : (Open(i) /\ over[i] = "ended") => Yielded(i) = Answer(it[i])
\* After a panic of the predicate only what it panicked about is missing at the end.
WholeBut == \A i \in Iters : (Open(i) /\ it[i].lev > Max) => Answer(it[i]) \ Yielded(i) \subseteq it[i].bang
\* Values differ from those before exactly in what the changing iterator yielded.
OnlyYielded == \A i \in Iters : (Open(i) /\ it[i].mut) =>
                   \A s \in InUse : (val[s] = 1) <=> s \in Yielded(i)
NoOther == \A i \in Iters : Open(i) /\ it[i].mut => \A j \in Iters \ {i} : ~Open(j)

C27_Step ==
    /\ maps' = maps
    /\ (val' /= val => \E i \in Iters : \/ ~Open(i) /\ it'[i].mut
                                     \/ /\ Open(i) /\ it[i].mut /\ Len(got'[i]) = Len(got[i]) + 1
                                        /\ \A s \in InUse : val'[s] /= val[s] => s = got'[i][Len(got'[i])])
    /\ \A i \in Iters : \A j \in Iters \ {i} : it'[i] /= it[i] => it'[j] = it[j] /\ got'[j] = got[j]
\* An iterator that has ended yields nothing more, and every step goes forward.
Ended == \A i \in Iters : (Open(i) /\ over[i] = "ended" /\ it'[i].lev = it[i].lev) => got'[i] = got[i]
Forward == \A i \in Iters : (Open(i) /\ it'[i] /= it[i] /\ it'[i] /= Closed) =>
              \/ it'[i].lev > it[i].lev
              \/ it'[i].lev = it[i].lev /\ it'[i].idx > it[i].idx
Same == Permutations(Iters)
Steps == [][C27_Step /\ Ended /\ Forward]_vars
=============================================================================
