----------------------------- MODULE PackTrace -----------------------------
(* Judges recorded uses of handles and table entries against PackCore.      *)
EXTENDS PackCore, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, es, ts, viol
vars == <<l, es, ts, viol>>

Regs0 == [r \in 0..7 |-> InvalidHandle]
Entries0 == [r \in 0..7 |-> NewEntry]
Init == l = 2 /\ es = Regs0 /\ ts = Entries0 /\ viol = {}

\* The documented representation of a handle, as two 16-bit halves.
Raw(h) == <<h.i \div 256, (h.i % 256) * 256 + h.v>>
FromRaw(a, b) == NewHandle(a * 256 + b \div 256, b % 256)

HandleAfter(e) ==
    LET h == es[e.r] IN
    CASE e.op = "enew" -> NewHandle(e.a[1], e.a[2])
      [] e.op = "einv" -> InvalidHandle
      [] e.op = "eidx" -> [h EXCEPT !.i = e.a[1]]
      [] e.op = "ever" -> [h EXCEPT !.v = e.a[1]]
      [] e.op = "eraw" -> FromRaw(e.a[1], e.a[2])
EntryAfter(e) ==
    LET t == ts[e.r] IN
    CASE e.op = "tnew" -> NewEntry
      [] e.op = "tver" -> [t EXCEPT !.v = e.a]
      [] e.op = "trow" -> [t EXCEPT !.r = e.a]
      [] e.op = "tarch" -> [t EXCEPT !.a = e.a]
      [] e.op = "tinv" -> Invalidated(t, e.a)

B(b) == IF b THEN 1 ELSE 0
HandleOk(e, h) == /\ e.f = <<h.i, h.v>> /\ e.again = e.f /\ e.same = 1
                  /\ e.raw = Raw(h) /\ e.valid = B(HandleValid(h))
EntryOk(e, t) == e.f = <<t.v, t.r, t.a>> /\ e.again = e.f /\ e.valid = B(EntryValid(t))
\* Numbers of more than 31 bits come as two halves.
Value(a) == IF a[1] >= 256 THEN IBase ELSE a[1] * 65536 + a[2]

OtherOk(e) ==
    CASE e.op = "eeq" -> e.eq = B(es[e.r] = es[e.s]) /\ e.ne = B(es[e.r] /= es[e.s])
      [] e.op = "iia" -> LET ok == RowAllowed(Value(e.a)) IN
                         e.some = B(ok) /\ (ok => e.v = Value(e.a) /\ e.bytes = Value(e.a))
      [] e.op = "iiab" -> e.b = e.a
      [] e.op = "iiad" -> e.v = 0
      [] e.op = "ai" -> LET ok == StorageAllowed(e.a) IN e.some = B(ok) /\ (ok => e.v = e.a)
      [] e.op \in {"esweep", "tsweep"} -> e.n = e.to - e.from /\ e.bad = 0
      [] e.op = "asweep" -> e.bad = 0

IsHandle(e) == e.op \in {"enew", "einv", "eidx", "ever", "eraw"}
IsEntry(e) == e.op \in {"tnew", "tver", "trow", "tarch", "tinv"}
Ok(e) == IF e.op = "crash" \/ e.panic = 1 THEN FALSE
         ELSE IF IsHandle(e) THEN HandleOk(e, HandleAfter(e))
         ELSE IF IsEntry(e) THEN EntryOk(e, EntryAfter(e))
         ELSE OtherOk(e)

Next ==
    /\ l <= Len(Events)
    /\ l' = l + 1
    /\ LET e == Events[l] IN
       IF e.op = "reset" THEN es' = Regs0 /\ ts' = Entries0 /\ viol' = viol
       ELSE /\ viol' = IF Ok(e) \/ viol /= {} THEN viol ELSE {<<"C26", e.ln>>}
            /\ es' = IF IsHandle(e) /\ e.panic = 0 THEN [es EXCEPT ![e.r] = HandleAfter(e)] ELSE es
            /\ ts' = IF IsEntry(e) /\ e.panic = 0 THEN [ts EXCEPT ![e.r] = EntryAfter(e)] ELSE ts
Spec == Init /\ [][Next]_vars

Finished == l <= Len(Events) \/ PrintT(<<"VERDICT", viol>>)
Consumed == TLCGet("stats").diameter = Len(Events)
=============================================================================
