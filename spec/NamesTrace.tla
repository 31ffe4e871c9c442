----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* Judges hashes, declared names and derived identities (property C23).    *)
(* Everything is a function of the bytes of the name: no state.            *)
(***************************************************************************)
EXTENDS Fnv, Integers, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, viol
vars == <<l, viol>>
Init == l = 2 /\ viol = {}

Ident(e) == LET i == Id16(e.name) IN e.name = e.own /\ e.id = i /\ e.did = i /\ e.now = i
Ok(e) ==
    CASE e.op = "hash" ->
            LET b == Limited(e.bytes, e.limit)
                h == Hash32(b)
            IN  /\ e.h32 = h /\ e.h16 = Fold16(h) /\ e.h64 = Hash64(b)
                /\ e.str /= << >> =>
                    LET g == Hash32(e.bytes) IN e.str = <<g, Hash64(e.bytes), Fold16(g)>>
      [] e.op = "declared" -> Ident(e)
      [] e.op = "overridden" -> e.name = e.own /\ e.id = e.want /\ e.did = e.want
      [] e.op = "derived" -> Ident(e) /\ e.hid = e.id /\ e.shape = e.hshape /\ e.life = e.hlife

Next ==
    /\ l <= Len(Events)
    /\ l' = l + 1
    /\ LET e == Events[l] IN
       viol' = IF e.op = "reset" \/ viol /= {} THEN viol
               ELSE IF e.op = "crash" \/ e.panic = 1 THEN {<<"C23", e.ln>>}
               ELSE IF Ok(e) THEN {} ELSE {<<"C23", e.ln>>}
Spec == Init /\ [][Next]_vars

Finished == l <= Len(Events) \/ PrintT(<<"VERDICT", viol>>)
Consumed == TLCGet("stats").diameter = Len(Events)
=============================================================================
