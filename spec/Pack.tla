------------------------------- MODULE Pack -------------------------------
(***************************************************************************)
(* The packed representation against the contract, for every value and     *)
(* every order of setting fields (small widths).                           *)
(***************************************************************************)
EXTENDS PackCore

VARIABLES h, hp,    \* handle: contract, representation
          e, ep     \* entry
vars == <<h, hp, e, ep>>

Idx == 0..(IBase - 1)
Ver == 0..(VBase - 1)
Sto == 0..(ABase - 1)

Init == h = InvalidHandle /\ hp = PackHandle(InvalidHandle) /\ e = NewEntry /\ ep = PackEntry(NewEntry)

Handle == /\ UNCHANGED <<e, ep>>
          /\ \/ \E i \in Idx, v \in Ver : h' = NewHandle(i, v) /\ hp' = PackHandle(NewHandle(i, v))
             \/ \E i \in Idx : h' = [h EXCEPT !.i = i] /\ hp' = SetIndex(hp, i)
             \/ \E v \in Ver : h' = [h EXCEPT !.v = v] /\ hp' = SetVersion(hp, v)
\* Entry fields are set by replacing their digits.
Entry == /\ UNCHANGED <<h, hp>>
         /\ \/ \E v \in Ver : e' = [e EXCEPT !.v = v]
                              /\ ep' = ep + v * IBase * ABase - EntryVersion(ep) * IBase * ABase
            \/ \E r \in Idx : RowAllowed(r) /\ e' = [e EXCEPT !.r = r]
                              /\ ep' = ep + r * ABase - EntryRow(ep) * ABase
            \/ \E a \in Sto : e' = [e EXCEPT !.a = a] /\ ep' = ep + a - EntryStorage(ep)
            \/ \E r \in Idx : /\ e' = Invalidated(e, r)
                              /\ ep' = EntryVersion(ep) * IBase * ABase + r * ABase + ABase - 1
Next == Handle \/ Entry
Spec == Init /\ [][Next]_vars

HandleReads == UnpackIndex(hp) = h.i /\ UnpackVersion(hp) = h.v
EntryReads == EntryVersion(ep) = e.v /\ EntryRow(ep) = e.r /\ EntryStorage(ep) = e.a
OneInvalidHandle == HandleValid(h) <=> hp /= IBase * VBase - 1
InvalidEntries == ~EntryValid(e) <=> EntryStorage(ep) = ABase - 1
=============================================================================
