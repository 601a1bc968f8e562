------------------------------ MODULE AperTrace ------------------------------
(***************************************************************************)
(* Validation of behaviours recorded from the real codec library (impl ->  *)
(* spec).  Every line of the file is one behaviour: the operations that    *)
(* were called with the bit length after each, the octets that were        *)
(* received and what each decoding call returned.  Each logged call has to *)
(* be the corresponding action of AperCodec.                               *)
(***************************************************************************)
EXTENDS AperOps, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, phase, i, buf, pos
vars == <<t, phase, i, buf, pos>>
Tr == Traces[t]

Init == /\ t \in 1..Len(Traces)
        /\ phase = "w" /\ i = 1 /\ pos = 0
        /\ buf = [k \in 1..Traces[t].skip |-> k % 2]

Tell(what, spec) == PrintT("M " \o ToJson([t |-> t, i |-> i, what |-> what, spec |-> spec]))

\* a logged call of an encoder
Encode ==
  /\ phase = "w" /\ Tr.fault[1] # -1 /\ i <= Len(Tr.log)
  /\ LET e == EncOp(buf, Tr.log[i].o)
         l == Tr.log[i]
         good == e.ok = l.ok /\ (e.ok => Len(e.b) = l.len)
     IN  /\ IF good THEN TRUE ELSE Tell("encode", [ok |-> e.ok, len |-> IF e.ok THEN Len(e.b) ELSE 0])
         /\ phase' = IF good THEN IF e.ok THEN "w" ELSE "done" ELSE "bad"
         /\ buf' = IF e.ok THEN e.b ELSE buf
         /\ i' = i + 1
  /\ UNCHANGED <<t, pos>>

\* what was received: the buffer of the writer unless the trace says otherwise
Receive ==
  /\ phase = "w" /\ (i > Len(Tr.log) \/ Tr.fault[1] = -1)
  /\ LET good == Tr.fault # <<0, 0>> \/ Tr.bytes = ToOctets(buf)
     IN  /\ IF good THEN TRUE ELSE Tell("bytes", ToOctets(buf))
         /\ phase' = IF good THEN "r" ELSE "bad"
  /\ buf' = OctetsToBits(Tr.bytes)
  /\ i' = 1 /\ pos' = Tr.skip
  /\ UNCHANGED t

\* a logged call of a decoder
Decode ==
  /\ phase = "r" /\ i <= Len(Tr.out)
  /\ LET o == Tr.log[i].o
         d == DecOp(buf, pos, o)
         l == Tr.out[i]
         good == /\ d.ok = l.ok /\ l.p >= 0
                 /\ d.ok => d.v = l.v[1] /\ d.p = l.p
                 /\ d.ok => InConstraint(o, d.v)
                 /\ Tr.fault = <<0, 0>> => d.ok /\ d.v = Expected(o) /\ d.p = Tr.log[i].len
     IN  /\ IF good THEN TRUE ELSE Tell("decode", d)
         /\ phase' = IF good THEN "r" ELSE "bad"
         /\ pos' = IF d.ok THEN d.p ELSE pos
         /\ i' = i + 1
  /\ UNCHANGED <<t, buf>>

Finish == /\ phase = "r" /\ i > Len(Tr.out) /\ phase' = "done"
          /\ UNCHANGED <<t, i, buf, pos>>

Next == Encode \/ Receive \/ Decode \/ Finish
Spec == Init /\ [][Next]_vars
Told == phase = "done" => PrintT("D " \o ToString(t))
=============================================================================
