-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* The implementation of row storage: parallel columns of a capacity, a    *)
(* count, doubling growth, and the moves between two storages with one     *)
(* column in common.  Checked against RowsCore: rows is what the storage   *)
(* should hold, gone what destructors have run for, held what was handed   *)
(* back.  A value is <<column, number>>; numbers are never used twice.     *)
(***************************************************************************)
EXTENDS RowsCore, Integers, FiniteSets, TLC

CONSTANTS Default, Max, Caps, Numbers
Junk == <<"junk", 0>>
Columns == ("x" :> {"A", "B"}) @@ ("y" :> {"B", "C"})
Stores == DOMAIN Columns

VARIABLES col, ent, n, cap, next, flag, rows, gone, held, want,
          made     \* values that were ever put in
impl == <<col, ent, n, cap>>
vars == <<col, ent, n, cap, next, flag, rows, gone, held, want, made>>

Blank(c) == [i \in 0..c - 1 |-> Junk]
Init ==
    /\ cap \in [Stores -> Caps]
    /\ n = [s \in Stores |-> 0]
    /\ col = [s \in Stores |-> [k \in Columns[s] |-> Blank(cap[s])]]
    /\ ent = [s \in Stores |-> Blank(cap[s])]
    /\ next = 1 /\ flag = 0 /\ want = 0
    /\ rows = [s \in Stores |-> << >>]
    /\ gone = {} /\ held = {} /\ made = {}

Min(a, b) == IF a < b THEN a ELSE b
\* Capacity, columns and handles after making room for one more row.
Room(s) == IF n[s] = cap[s] THEN (IF cap[s] = 0 THEN Default ELSE cap[s] + Min(cap[s], Max - cap[s])) ELSE cap[s]
Wide(f, c) == [i \in 0..c - 1 |-> IF i \in DOMAIN f THEN f[i] ELSE Junk]
CanGrow(s) == n[s] < cap[s] \/ cap[s] = 0 \/ cap[s] < Max
Val(k, x) == <<k, x>>
RowOf(s, x) == [h |-> <<"h", x>>, v |-> [k \in Columns[s] |-> Val(k, x)]]

Push(s) ==
    /\ next \in Numbers /\ CanGrow(s)
    /\ LET c == Room(s) IN
       /\ cap' = [cap EXCEPT ![s] = c]
       /\ col' = [col EXCEPT ![s] = [k \in Columns[s] |-> [Wide(@[k], c) EXCEPT ![n[s]] = Val(k, next)]]]
       /\ ent' = [ent EXCEPT ![s] = [Wide(@, c) EXCEPT ![n[s]] = <<"h", next>>]]
    /\ n' = [n EXCEPT ![s] = @ + 1]
    /\ next' = next + 1
    /\ rows' = [rows EXCEPT ![s] = Pushed(@, RowOf(s, next))]
    /\ made' = made \cup {Val(k, next) : k \in Columns[s]}
    /\ UNCHANGED <<gone, held, flag, want>>

Swap(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
\* swap_to_last of row i; x are the columns after it
Last(s, i) == IF i = n[s] - 1 THEN <<col[s], ent[s], 0>>
              ELSE <<[k \in Columns[s] |-> Swap(col[s][k], i, n[s] - 1)], Swap(ent[s], i, n[s] - 1), 1>>
ToLastRow(s, i) ==
    /\ i < n[s]
    /\ LET x == Last(s, i) IN
       col' = [col EXCEPT ![s] = x[1]] /\ ent' = [ent EXCEPT ![s] = x[2]] /\ flag' = x[3]
    /\ rows' = [rows EXCEPT ![s] = ToLast(@, i)]
    /\ want' = Relocated(rows[s], i)
    /\ UNCHANGED <<n, cap, next, gone, held, made>>
\* swap_drop (runs destructors) and swap_remove (hands back)
Take(s, i, drop) ==
    /\ i < n[s]
    /\ LET x == Last(s, i)
           out == {x[1][k][n[s] - 1] : k \in Columns[s]}
       IN  /\ col' = [col EXCEPT ![s] = x[1]] /\ ent' = [ent EXCEPT ![s] = x[2]] /\ flag' = x[3]
           /\ gone' = IF drop THEN gone \cup out ELSE gone
           /\ held' = IF drop THEN held ELSE held \cup out
    /\ n' = [n EXCEPT ![s] = @ - 1]
    /\ rows' = [rows EXCEPT ![s] = SwapRemoved(@, i)]
    /\ want' = Relocated(rows[s], i)
    /\ UNCHANGED <<cap, next, made>>
Exchange(s, i, j) ==
    /\ i < n[s] /\ j < n[s] /\ i /= j
    /\ col' = [col EXCEPT ![s] = [k \in Columns[s] |-> Swap(@[k], i, j)]]
    /\ ent' = [ent EXCEPT ![s] = Swap(@, i, j)]
    /\ rows' = [rows EXCEPT ![s] = Exchanged(@, i, j)]
    /\ UNCHANGED <<n, cap, next, gone, held, flag, want, made>>
\* A row moves from s to d: common columns are copied, the rest written anew or handed back.
Move(s, d, i) ==
    /\ s /= d /\ i < n[s] /\ next \in Numbers /\ CanGrow(d)
    /\ LET c == Room(d)
           x == Last(s, i)
           common == Columns[s] \cap Columns[d]
       IN  /\ cap' = [cap EXCEPT ![d] = c]
           /\ col' = [col EXCEPT ![s] = x[1],
                                 ![d] = [k \in Columns[d] |-> [Wide(@[k], c) EXCEPT ![n[d]] =
                                            IF k \in common THEN col[s][k][i] ELSE Val(k, next)]]]
           /\ ent' = [ent EXCEPT ![s] = x[2], ![d] = [Wide(@, c) EXCEPT ![n[d]] = ent[s][i]]]
           /\ flag' = x[3]
           /\ held' = held \cup {col[s][k][i] : k \in Columns[s] \ common}
           /\ rows' = [rows EXCEPT ![s] = SwapRemoved(@, i),
                                   ![d] = Pushed(@, [h |-> Row(rows[s], i).h,
                                                     v |-> [k \in Columns[d] |-> IF k \in common THEN Row(rows[s], i).v[k]
                                                                                 ELSE Val(k, next)]])]
    /\ n' = [n EXCEPT ![s] = @ - 1, ![d] = @ + 1]
    /\ want' = Relocated(rows[s], i)
    /\ next' = next + 1
    /\ made' = made \cup {Val(k, next) : k \in Columns[d] \ Columns[s]}
    /\ UNCHANGED gone
Clear(s) ==
    /\ n[s] > 0
    /\ gone' = gone \cup UNION {{col[s][k][i] : i \in 0..n[s] - 1} : k \in Columns[s]}
    /\ n' = [n EXCEPT ![s] = 0]
    /\ rows' = [rows EXCEPT ![s] = << >>]
    /\ UNCHANGED <<col, ent, cap, next, held, flag, want, made>>

Next ==
    \E s \in Stores :
        \/ Push(s)
        \/ Clear(s)
        \/ \E i \in 0..Max - 1 : ToLastRow(s, i) \/ Take(s, i, TRUE) \/ Take(s, i, FALSE)
        \/ \E i, j \in 0..Max - 1 : Exchange(s, i, j)
        \/ \E d \in Stores, i \in 0..Max - 1 : Move(s, d, i)
Spec == Init /\ [][Next]_vars

Holds(s) ==
    /\ n[s] = Len(rows[s]) /\ n[s] <= cap[s] /\ cap[s] <= Max
    /\ \A i \in 0..n[s] - 1 :
        /\ ent[s][i] = Row(rows[s], i).h
        /\ \A k \in Columns[s] : col[s][k][i] = Row(rows[s], i).v[k]
Refines == \A s \in Stores : Holds(s)
Reports == flag = want
\* No value lives twice, none that has been dropped or handed back lives on, and none is lost.
Live == UNION {UNION {{col[s][k][i] : i \in 0..n[s] - 1} : k \in Columns[s]} : s \in Stores}
Total == LET C[s \in Stores] == n[s] * 2 IN C["x"] + C["y"]
Linear == Cardinality(Live) = Total /\ Live \cap gone = {} /\ Live \cap held = {} /\ gone \cap held = {} /\ Live \cup gone \cup held = made
=============================================================================
