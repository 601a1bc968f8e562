-------------------------- MODULE AperMessagesTrace --------------------------
(***************************************************************************)
(* Validation of messages recorded from derived codecs: every line has the *)
(* type, the value that was sent (if any) with the outcome, the octets     *)
(* that were received and the outcome.                                     *)
(***************************************************************************)
EXTENDS AperTypes, TLC, Json, IOUtils

Types == JsonDeserialize(IOEnv.UNIVERSE).types
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES n, phase, buf
vars == <<n, phase, buf>>
Tr == Traces[n]
Ty == Types[Tr.t].ty

Init == n \in 1..Len(Traces) /\ phase = "w" /\ buf = [i \in 1..Traces[n].lead |-> i % 2]
Tell(what, spec) == PrintT("M " \o ToJson([n |-> n, what |-> what, spec |-> spec]))

Send ==
  /\ phase = "w"
  /\ IF Tr.v = <<>> THEN phase' = "r" /\ buf' = OctetsToBits(Tr.bytes)
     ELSE LET e == Enc(buf, Ty, Tr.v[1], FALSE)
              good == /\ e.ok = Tr.sent.ok
                      /\ e.ok => Len(e.b) = Tr.sent.len /\ (Tr.fault = <<0, 0>> => ToOctets(e.b) = Tr.bytes)
          IN  /\ IF good THEN TRUE ELSE Tell("encode", IF e.ok THEN [ok |-> TRUE, len |-> Len(e.b), bytes |-> ToOctets(e.b)] ELSE Bad)
              /\ phase' = IF ~good THEN "bad" ELSE IF e.ok THEN "r" ELSE "done"
              /\ buf' = IF e.ok THEN OctetsToBits(Tr.bytes) ELSE buf
  /\ UNCHANGED n
Receive ==
  /\ phase = "r"
  /\ LET d == Dec(buf, Tr.lead, Ty, Types[Tr.t].key)
         good == d.ok = Tr.out.ok /\ (d.ok => Tr.out.v = d.v /\ Tr.out.p = d.p)
     IN  /\ IF good THEN TRUE ELSE Tell("decode", d)
         /\ phase' = IF good THEN "done" ELSE "bad"
  /\ UNCHANGED <<n, buf>>
Next == Send \/ Receive
Spec == Init /\ [][Next]_vars
Told == phase = "done" => PrintT("D " \o ToString(n))
=============================================================================
