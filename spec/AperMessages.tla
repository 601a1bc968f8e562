---------------------------- MODULE AperMessages ----------------------------
(***************************************************************************)
(* Messages of composed types between two parties: the library on one side *)
(* (mode "lib") or a peer that also sends extensions and fragments (mode   *)
(* "peer"), a transfer that may damage the octets, or octets from anywhere *)
(* (mode "wire"), and the library as the receiver.                         *)
(*                                                                         *)
(* The universe (a JSON file) gives the types, for each the values that    *)
(* are sent and the octets that are received, and a key that is known from *)
(* the start.                                                              *)
(***************************************************************************)
EXTENDS AperTypes, TLC, Json, IOUtils

CONSTANTS Leads, Cuts, Flips, Modes, Emit

Universe == JsonDeserialize(IOEnv.UNIVERSE)
Types == Universe.types        \* [ty, key, vals, wires]

VARIABLES t, k, mode, lead, phase, buf, sent, fault, out
vars == <<t, k, mode, lead, phase, buf, sent, fault, out>>

Ty == Types[t].ty
V == Types[t].vals[k]
Key == Types[t].key
Lead(n) == [i \in 1..n |-> i % 2]
NoOut == [ok |-> FALSE]

Init ==
  /\ t \in 1..Len(Types) /\ mode \in Modes /\ lead \in Leads
  /\ fault = <<0, 0>> /\ sent = [ok |-> FALSE, len |-> 0] /\ out = NoOut
  /\ IF mode = "wire"
     THEN /\ k \in 1..Len(Types[t].wires) /\ phase = "r" /\ buf = OctetsToBits(Types[t].wires[k]) /\ lead <= Len(buf)
     ELSE k \in 1..Len(Types[t].vals) /\ phase = "w" /\ buf = Lead(lead)

\* The sender encodes; the library only what it can hold, the peer only what the library does not send.
Send ==
  /\ phase = "w"
  /\ mode = "lib" => Representable(Ty, V)
  /\ LET l == IF Representable(Ty, V) THEN Enc(buf, Ty, V, FALSE) ELSE Bad
         e == IF mode = "lib" THEN l ELSE Enc(buf, Ty, V, TRUE)
     IN  /\ mode = "peer" => ~l.ok /\ e.ok
         /\ sent' = [ok |-> e.ok, len |-> IF e.ok THEN Len(e.b) ELSE 0]
         /\ buf' = IF e.ok THEN e.b ELSE buf
         /\ phase' = IF e.ok THEN "t" ELSE "x"
  /\ UNCHANGED <<t, k, mode, lead, fault, out>>

Transfer(cut, flip) ==
  /\ phase = "t"
  /\ LET whole == PadTo8(buf)
         kept  == SubSeq(whole, 1, Len(whole) - 8 * cut)
         f     == Len(kept) - flip + 1
     IN  /\ 8 * cut <= Len(whole) /\ Len(kept) >= lead
         /\ flip > 0 => f > lead /\ f <= Len(kept)
         /\ buf' = IF flip = 0 THEN kept ELSE [kept EXCEPT ![f] = 1 - @]
  /\ fault' = <<cut, flip>> /\ phase' = "r"
  /\ UNCHANGED <<t, k, mode, lead, sent, out>>

Receive ==
  /\ phase = "r" /\ phase' = "x"
  /\ LET d == Dec(buf, lead, Ty, Key)
     IN  out' = IF d.ok THEN [ok |-> TRUE, v |-> d.v, p |-> d.p] ELSE NoOut
  /\ UNCHANGED <<t, k, mode, lead, buf, sent, fault>>

Next == Send \/ (\E c \in Cuts, f \in Flips : Transfer(c, f)) \/ Receive
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Done == phase = "x"
Whole == Done /\ mode # "wire" /\ sent.ok /\ fault = <<0, 0>>

\* C10 - C13, C15: the receiver gets the value that was sent, without the additions it does not
\* know, and has read exactly the message.
Delivered == Whole /\ Receives(Ty, V, Key).ok => out.ok /\ out.v = Known(Ty, V) /\ out.p = sent.len

\* C12, C13, C14: what it cannot take is an error, not another value -- unless the
\* sender itself used a key for a different alternative.
Declined == Whole /\ ~Receives(Ty, V, Key).ok /\ out.ok => out.v # Known(Ty, V)

\* C15: encoding is canonical: the value that was received has the same encoding.
Canonical == Whole /\ mode = "lib" /\ Receives(Ty, V, Key).ok =>
               LET e == Enc(Lead(lead), Ty, out.v, FALSE) IN e.ok /\ PadTo8(e.b) = buf
\* A peer without extensions to send sends the same.
Agree == phase = "t" /\ mode = "lib" => LET e == Enc(Lead(lead), Ty, V, TRUE) IN e.ok /\ e.b = buf

\* C07: the reader stays inside.
Confined == Done /\ out.ok => out.p >= lead /\ out.p <= Len(buf)

\* C14: what is received can be held.
Held == Done /\ out.ok => Representable(Ty, out.v)

Behaviour == [t |-> t, k |-> k, mode |-> mode, lead |-> lead, fault |-> fault, sent |-> sent, bytes |-> ToOctets(buf),
              out |-> out]
Emitted == Done /\ Emit => PrintT("B " \o ToJson(Behaviour))
=============================================================================
