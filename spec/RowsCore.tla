------------------------------ MODULE RowsCore ------------------------------
(***************************************************************************)
(* The rows of one component set's storage, and what the documented        *)
(* operations do to them.  Row numbers start at 0, as in the library.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Row(rows, i) == rows[i + 1]
Pushed(rows, x) == Append(rows, x)
Overwritten(rows, i, x) == [rows EXCEPT ![i + 1] = x]
Exchanged(rows, i, j) == [rows EXCEPT ![i + 1] = rows[j + 1], ![j + 1] = rows[i + 1]]
\* "If index is the last element, does nothing.  Returns true if a swap occurred."
IsLast(rows, i) == i + 1 = Len(rows)
ToLast(rows, i) == IF IsLast(rows, i) THEN rows ELSE Exchanged(rows, i, Len(rows) - 1)
Relocated(rows, i) == IF IsLast(rows, i) THEN 0 ELSE 1
WithoutLast(rows) == SubSeq(rows, 1, Len(rows) - 1)
\* The row goes, the last one takes its place.
SwapRemoved(rows, i) == WithoutLast(ToLast(rows, i))
=============================================================================
