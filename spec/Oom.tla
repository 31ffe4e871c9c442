-------------------------------- MODULE Oom --------------------------------
\* C30: storage that grows column by column, any of whose requests for memory may be refused.
\*
\* Two component sets, {1} and {1, 2}; each stores one block for the handles (column 0) and one per component.
\* An entity is created in one of them, or moves from one into the other, which needs room there first.  Growing
\* reallocates one block after the other; the block of a refused request stays where it was, but nothing points to it
\* any more.  A refusal ends the call by a panic, which drops the values the call was given; all that happens then is
\* that the registry ends.
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS MaxEnts,      \* entities created at most
          MaxMoves      \* moves at most

Stores == {"A", "B"}
Comps(s) == IF s = "A" THEN {1} ELSE {1, 2}
Cols(s) == {0} \cup Comps(s)
Last(s) == IF s = "A" THEN 1 ELSE 2
Null == -1

VARIABLES st,       \* store -> [rows, cap, blk]: the registry's own idea of its storage
          live,     \* <<store, column, size>>: blocks the allocator has handed out
          ph,       \* what is going on
          made,     \* entities created so far
          moves,
          given,    \* values handed to the registry
          drops,    \* value -> how often its destructor has run
          bad       \* something was released that was not obtained so, or read through a null pointer
vars == <<st, live, ph, made, moves, given, drops, bad>>

Calm == [at |-> "calm"]
Init == /\ st = [s \in Stores |-> [rows |-> << >>, cap |-> 0, blk |-> [c \in Cols(s) |-> 0]]]
        /\ live = {} /\ ph = Calm /\ made = 0 /\ moves = 0 /\ given = {} /\ drops = << >> /\ bad = FALSE

Values(e, s) == {<<e, c>> : c \in Comps(s)}
Counted(d, vs) == [v \in DOMAIN d \cup vs |-> (IF v \in DOMAIN d THEN d[v] ELSE 0) + IF v \in vs THEN 1 ELSE 0]

\* The rows of s with e behind them, or without it.
Remove(rows, e) == SelectSeq(rows, LAMBDA x : x /= e)

\* Entity e goes into s, where there is room; from is where it was (or s itself if it is new).
Put(t, e, s, from) ==
    LET u == [t EXCEPT ![s].rows = Append(@, e)]
    IN  IF from = s THEN u
        ELSE [u EXCEPT ![from].rows = Remove(@, e)]

\* A call that puts e into s, with the values vs of the caller's; value 2 is dropped on the way from B to A.
Call(e, s, from, vs) ==
    /\ given' = given \cup vs
    /\ IF Len(st[s].rows) < st[s].cap
       THEN /\ st' = Put(st, e, s, from) /\ UNCHANGED <<live, ph, bad>>
            /\ drops' = IF from = "B" /\ s = "A" THEN Counted(drops, {<<e, 2>>}) ELSE drops
       ELSE /\ ph' = [at |-> "growing", s |-> s, e |-> e, from |-> from, vs |-> vs, col |-> 0,
                      rows |-> st[s].rows, old |-> st[s].cap,
                      new |-> IF st[s].cap = 0 THEN 1 ELSE 2 * st[s].cap]
            \* while it grows, the storage holds nothing
            /\ st' = [st EXCEPT ![s].rows = << >>, ![s].cap = 0]
            /\ UNCHANGED <<live, drops, bad>>

Create(s) == /\ ph = Calm /\ made < MaxEnts
             /\ made' = made + 1 /\ moves' = moves
             /\ Call(made + 1, s, s, Values(made + 1, s))

\* add_component moves from A to B and brings value 2, remove_component moves back; an entity adds once only, so
\* that each value is given once
Move(e, s, from) ==
    /\ ph = Calm /\ moves < MaxMoves
    /\ \E i \in DOMAIN st[from].rows : st[from].rows[i] = e
    /\ s = "B" => <<e, 2>> \notin given
    /\ moves' = moves + 1 /\ made' = made
    /\ Call(e, s, from, IF s = "B" THEN {<<e, 2>>} ELSE {})

Granted ==
    /\ ph.at = "growing"
    /\ LET s == ph.s
           c == ph.col
           grown == [st EXCEPT ![s].blk[c] = ph.new]
       IN  /\ bad' = (bad \/ (ph.old > 0 /\ <<s, c, ph.old>> \notin live))
           /\ live' = (live \ {<<s, c, ph.old>>}) \cup {<<s, c, ph.new>>}
           /\ IF c < Last(s)
              THEN st' = grown /\ ph' = [ph EXCEPT !.col = c + 1] /\ UNCHANGED drops
              ELSE /\ st' = Put([grown EXCEPT ![s].rows = ph.rows, ![s].cap = ph.new], ph.e, s, ph.from)
                   /\ ph' = Calm
                   /\ drops' = IF ph.from = "B" /\ s = "A" THEN Counted(drops, {<<ph.e, 2>>}) ELSE drops
    /\ UNCHANGED <<made, moves, given>>

Refused ==
    /\ ph.at = "growing"
    /\ st' = [st EXCEPT ![ph.s].blk[ph.col] = Null]
    /\ ph' = [at |-> "panicked"]
    /\ drops' = Counted(drops, ph.vs)
    /\ UNCHANGED <<live, made, moves, given, bad>>

\* The registry ends: the values of all rows are dropped, all blocks of storage that has room are released.
End ==
    /\ ph.at \in {"calm", "panicked"}
    /\ ph' = [at |-> "ended", panicked |-> (ph.at = "panicked")]
    /\ LET held == UNION {UNION {Values(st[s].rows[i], s) : i \in DOMAIN st[s].rows} : s \in Stores}
           blocks == {<<s, c, st[s].cap>> : s \in {x \in Stores : st[x].cap > 0}, c \in 0..2}
           mine == {b \in blocks : b[2] \in Cols(b[1])}
       IN  /\ drops' = Counted(drops, held)
           /\ live' = live \ mine
           /\ bad' = (bad \/ ~(mine \subseteq live)
                          \/ \E b \in mine : st[b[1]].blk[b[2]] = Null
                          \/ \E s \in Stores : st[s].rows /= << >> /\ \E c \in Comps(s) : st[s].blk[c] <= 0)
    /\ st' = [s \in Stores |-> [rows |-> << >>, cap |-> 0, blk |-> [c \in Cols(s) |-> 0]]]
    /\ UNCHANGED <<made, moves, given>>

Ended == ph.at = "ended" /\ UNCHANGED vars

Next == \/ \E s \in Stores : Create(s)
        \/ \E e \in 1..MaxEnts : Move(e, "B", "A") \/ Move(e, "A", "B")
        \/ Granted \/ Refused \/ End \/ Ended

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Nothing is released but what was obtained, as it was obtained, and nothing is read through a null pointer.
C30_Memory == ~bad
\* No value is dropped twice, nor one that was never given.
C30_Once == \A v \in DOMAIN drops : drops[v] <= 1 /\ v \in given
\* A refusal is noticed: storage whose growth was given up is never taken for whole.
C30_Noticed == ph = Calm => \A s \in Stores : st[s].cap > 0 => \A c \in Cols(s) : st[s].blk[c] = st[s].cap /\ <<s, c, st[s].cap>> \in live
\* Without one, everything given is dropped and everything obtained is released.
C30_Whole == ph.at = "ended" => (ph.panicked \/ (live = {} /\ DOMAIN drops = given))
=============================================================================
