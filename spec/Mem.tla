-------------------------------- MODULE Mem --------------------------------
(***************************************************************************)
(* Storage that only ever grows, in component sets that entities enter and *)
(* leave: what is held is bounded by the populations reached, however long *)
(* entities come and go.  A slot of the table is reused before the table   *)
(* grows; the rows of a set are moved together when one leaves; a set is   *)
(* created once and found again.                                           *)
(***************************************************************************)
EXTENDS MemCore, Sequences, FiniteSets, TLC

CONSTANTS Sets,     \* component sets
          MaxEnt,   \* entities at once
          First     \* rows of a set's first storage

VARIABLES index,    \* sets with storage: <<name, rows, capacity>>, in the order of their creation
          slots,    \* length of the table
          free,     \* free slots in it
          tcap,     \* capacity of the table
          \* what follows is not part of the implementation
          peak, top
vars == <<index, slots, free, tcap, peak, top>>

Rows(s) == LET x == {i \in DOMAIN index : index[i][1] = s} IN IF x = {} THEN 0 ELSE index[CHOOSE i \in x : TRUE][2]
RECURSIVE SumI(_, _, _)
SumI(f, j, n) == IF n = 0 THEN 0 ELSE f[n][j] + SumI(f, j, n - 1)
Live == SumI(index, 2, Len(index))

Init == /\ index = << >> /\ slots = 0 /\ free = 0 /\ tcap = 0
        /\ peak = [s \in Sets |-> 0] /\ top = 0

Find(ix, s) == {i \in DOMAIN ix : ix[i][1] = s}
Have(ix, s) == IF Find(ix, s) /= {} THEN ix ELSE Append(ix, <<s, 0, 0>>)
Grown(cap) == IF cap = 0 THEN First ELSE 2 * cap
\* One row enters the set.
Enter(ix, s) == LET jx == Have(ix, s)
                    i == CHOOSE i \in Find(jx, s) : TRUE
                IN  [jx EXCEPT ![i] = <<s, @[2] + 1, IF @[2] = @[3] THEN Grown(@[3]) ELSE @[3]>>]
Leave(ix, s) == LET i == CHOOSE i \in Find(ix, s) : TRUE IN [ix EXCEPT ![i][2] = @ - 1]

Note(ix) == /\ peak' = [s \in Sets |-> LET x == Find(ix, s) IN IF x = {} THEN peak[s] ELSE MaxN2(peak[s], ix[CHOOSE i \in x : TRUE][2])]
            /\ top' = MaxN2(top, SumI(ix, 2, Len(ix)))
            /\ index' = ix

Create(s) == /\ Live < MaxEnt
             /\ Note(Enter(index, s))
             /\ IF free > 0 THEN free' = free - 1 /\ UNCHANGED <<slots, tcap>>
                ELSE /\ slots' = slots + 1 /\ UNCHANGED free
                     /\ tcap' = IF slots = tcap THEN Grown(tcap) ELSE tcap
End(s) == /\ Rows(s) > 0 /\ Note(Leave(index, s)) /\ free' = free + 1 /\ UNCHANGED <<slots, tcap>>
Move(s, t) == /\ s /= t /\ Rows(s) > 0 /\ Note(Leave(Enter(index, t), s)) /\ UNCHANGED <<slots, free, tcap>>
Next == \E s \in Sets : Create(s) \/ End(s) \/ \E t \in Sets : Move(s, t)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Held == SumI(index, 3, Len(index)) + tcap
Allowed == LET most[T \in SUBSET Sets] == IF T = {} THEN 0 ELSE LET s == CHOOSE s \in T : TRUE IN
                                          2 * MaxN2(peak[s], First) + most[T \ {s}]
           IN  most[Sets] + 2 * MaxN2(top, First)
C29_Bounded == Held <= Allowed /\ Len(index) <= Cardinality(Sets)
Table == slots = Live + free /\ slots <= top /\ slots <= tcap
C29_Idle == Live = 0 => slots = free
\* More is held only when a population not reached before is reached (so the same again needs nothing more).
C29_Again == [][Held' > Held => peak' /= peak \/ top' /= top]_vars

\* The allowance in KiB covers storage of up to twice the peak, 128 rows at first, with 8 bytes per
\* row beside its components, and a table of up to twice the most entities, 8 bytes each.
ASSUME \A p \in (0..700) \cup {65536 * i : i \in 1..200} : \A row \in {0, 1, 3, 4, 8, 12, 16, 17, 64, 100, 512} :
          ((2 * MaxN2(p, 128)) \div 1024 + 1) * (row + 8) <= SetKiB(p, row) \/
          2 * MaxN2(p, 128) * (row + 8) <= 1024 * SetKiB(p, row)
ASSUME \A t \in (0..3000) \cup {65536 * i : i \in 1..200} : 16 * MaxN2(t, 64) <= 1024 * TableKiB(t)
=============================================================================
