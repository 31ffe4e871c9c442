----------------------------- MODULE PackCore -----------------------------
(***************************************************************************)
(* Handles and table entries as numbers.  A handle holds an index (upper   *)
(* bits) and a version (lower bits); an entry holds a version, a row and a *)
(* storage number.  The contract: each field reads back as last set.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS IBase,    \* number of indexes (and of rows)
          VBase,    \* number of versions
          ABase     \* number of storage numbers

\* The contract: records of fields.
NewHandle(i, v) == [i |-> i, v |-> v]
InvalidHandle == [i |-> IBase - 1, v |-> VBase - 1]
HandleValid(h) == h /= InvalidHandle

NewEntry == [v |-> 0, r |-> 0, a |-> 0]
EntryValid(e) == e.a /= ABase - 1
Invalidated(e, next) == [e EXCEPT !.r = next, !.a = ABase - 1]

RowAllowed(i) == i < IBase - 1
StorageAllowed(a) == a < ABase - 1

\* The representation: one number each.
PackHandle(h) == h.i * VBase + h.v
UnpackIndex(n) == n \div VBase
UnpackVersion(n) == n % VBase
SetIndex(n, i) == i * VBase + UnpackVersion(n)
SetVersion(n, v) == UnpackIndex(n) * VBase + v

PackEntry(e) == (e.v * IBase + e.r) * ABase + e.a
EntryVersion(n) == n \div (IBase * ABase)
EntryRow(n) == (n \div ABase) % IBase
EntryStorage(n) == n % ABase
=============================================================================
