------------------------------- MODULE EcsPar -------------------------------
(***************************************************************************)
(* Several registries and several threads (property C21).                  *)
(*                                                                         *)
(* A thread makes a call on a registry it may use: a call that changes the *)
(* registry needs it exclusively, reading calls share it (the borrow rules *)
(* of the language).  Registries move between threads freely.  A changing  *)
(* call decides what it will do, takes the registry apart, and puts it     *)
(* together again, in separate steps, so that every interleaving with the  *)
(* calls of other threads is considered.                                   *)
(*                                                                         *)
(* Checked: every registry is what its own calls alone make it, with the   *)
(* outcomes they have alone; readers never meet a registry that is taken   *)
(* apart; and the order in which calls on different registries are judged  *)
(* does not matter - which is how EcsTrace and LimitsTrace judge blocks of *)
(* calls made at the same time (one registry after the other).             *)
(***************************************************************************)
EXTENDS EcsCore

CONSTANTS Regs, Threads, NKinds, Vals, NSlots,
          MaxCalls,      \* completed calls
          Limit          \* what the limit of entities counts: "own" registry (as it must), or "all" of them

VARIABLES world,  \* registry -> state
          apart,  \* registries taken apart at the moment
          busy,   \* thread -> the call it is in, or Idle
          log     \* completed calls in order of completion: <<r, op, h, k, v, ok, got>>
vars == <<world, apart, busy, log>>

Kinds == 1..NKinds
Idle == << >>
Handles2 == (0..(NSlots - 1)) \X (0..(VMod - 1))

Writes(op) == op /= "read"
\* May thread t begin a call on r ?
Free(r, op) == {u \in Threads : IF busy[u] = Idle THEN FALSE ELSE busy[u][1] = r /\ (Writes(op) \/ Writes(busy[u][2]))} = {}

\* What a call would do to state S alone: <<succeeds, value read>>; creation takes the handle it is given.
RECURSIVE SumCard(_)
SumCard(R) == IF R = {} THEN 0 ELSE LET r == CHOOSE r \in R : TRUE IN Cardinality(Handles(world[r])) + SumCard(R \ {r})
RoomIn(r) == IF Limit = "own" THEN Cardinality(Handles(world[r])) < MaxEnt ELSE SumCard(Regs) < MaxEnt
Outcome(S, op, h, k, room) ==
    CASE op = "create" -> <<room, 0>>
      [] op = "destroy" -> <<IsLive(S, h), 0>>
      [] op = "add" -> <<AddSucceeds(S, h, k), 0>>
      [] op = "read" -> IF Has(S, h, k) THEN <<TRUE, ValueOf(S.live[h], k)>> ELSE <<FALSE, 0>>
Effect(S, op, h, k, v, ok) ==
    IF ~ok THEN S
    ELSE CASE op = "create" -> AfterCreate(S, h, {<<k, v>>})
           [] op = "destroy" -> AfterEnd(S, h)
           [] op = "add" -> AfterSet(S, h, Put(S.live[h], k, v))
           [] OTHER -> S

Init == /\ world = [r \in Regs |-> Empty] /\ apart = {} /\ busy = [t \in Threads |-> Idle] /\ log = << >>

Begin(t, r, op, h, k, v) ==
    /\ busy[t] = Idle /\ Free(r, op)
    /\ LET S == world[r]
           oc == Outcome(S, op, h, k, RoomIn(r))
       IN  /\ (IF op = "create" /\ oc[1] THEN Fresh(S, h) ELSE TRUE)
           /\ busy' = [busy EXCEPT ![t] = <<r, op, h, k, v, oc[1], oc[2]>>]
    /\ UNCHANGED <<world, apart, log>>
TakeApart(t) ==
    /\ busy[t] /= Idle /\ Writes(busy[t][2]) /\ busy[t][6] /\ busy[t][1] \notin apart
    /\ apart' = apart \cup {busy[t][1]}
    /\ UNCHANGED <<world, busy, log>>
End(t) ==
    /\ busy[t] /= Idle
    /\ LET c == busy[t] IN
       /\ (IF Writes(c[2]) /\ c[6] THEN c[1] \in apart ELSE TRUE)
       /\ world' = [world EXCEPT ![c[1]] = Effect(@, c[2], c[3], c[4], c[5], c[6])]
       /\ apart' = IF Writes(c[2]) THEN apart \ {c[1]} ELSE apart
       /\ log' = Append(log, c)
    /\ busy' = [busy EXCEPT ![t] = Idle]

Next ==
    \E t \in Threads :
        \/ /\ Len(log) + Cardinality({u \in Threads : busy[u] /= Idle}) < MaxCalls
           /\ \E r \in Regs :
              \/ \E h \in Handles2, v \in Vals, k \in Kinds : Begin(t, r, "create", h, k, v)
              \/ \E h \in Handles2 : \/ Begin(t, r, "destroy", h, 1, 0)
                                     \/ \E k \in Kinds : Begin(t, r, "read", h, k, 0) \/ \E v \in Vals : Begin(t, r, "add", h, k, v)
        \/ TakeApart(t) \/ End(t)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Replay(_, _)
\* One registry alone carrying out its calls: <<state, every outcome was right>>.
Replay(S, cs) ==
    IF cs = << >> THEN <<S, TRUE>>
    ELSE LET c == Head(cs)
             oc == Outcome(S, c[2], c[3], c[4], Cardinality(Handles(S)) < MaxEnt)
             rest == Replay(Effect(S, c[2], c[3], c[4], c[5], oc[1]), Tail(cs))
         IN  <<rest[1], rest[2] /\ oc = <<c[6], c[7]>> /\ ((c[2] = "create" /\ oc[1]) => Fresh(S, c[3]))>>
Of(cs, r) == SelectSeq(cs, LAMBDA c : c[1] = r)
Alone == \A r \in Regs : Replay(Empty, Of(log, r)) = <<world[r], TRUE>>

ReadersSeeWhole == \A t \in Threads : busy[t] /= Idle /\ ~Writes(busy[t][2]) => busy[t][1] \notin apart
Exclusive == \A t, u \in Threads : (t /= u /\ busy[t] /= Idle /\ busy[u] /= Idle /\ busy[t][1] = busy[u][1])
                                        => ~Writes(busy[t][2]) /\ ~Writes(busy[u][2])

RECURSIVE All(_, _)
\* Judging all registries together along a sequence of calls.
All(W, cs) == IF cs = << >> THEN W
              ELSE LET c == Head(cs) IN All([W EXCEPT ![c[1]] = Effect(@, c[2], c[3], c[4], c[5], c[6])], Tail(cs))
RECURSIVE ByRegistry(_, _)
ByRegistry(cs, R) == IF R = {} THEN << >> ELSE LET r == CHOOSE r \in R : TRUE IN Of(cs, r) \o ByRegistry(cs, R \ {r})
OrderIrrelevant ==
    LET none == [r \in Regs |-> Empty]
    IN  \A n \in 0..Len(log) :       \* a concurrent block may begin anywhere
            LET before == SubSeq(log, 1, n)
                block == SubSeq(log, n + 1, Len(log))
            IN  All(All(none, before), ByRegistry(block, Regs)) = world
=============================================================================
