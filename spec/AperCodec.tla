------------------------------ MODULE AperCodec ------------------------------
(***************************************************************************)
(* The codec library as a state machine over one buffer: a writer encodes  *)
(* a series of values, the buffer travels as octets (and may be cut short  *)
(* or corrupted on the way), a reader decodes the same series of types.    *)
(*                                                                         *)
(* TLC checks the properties below on all behaviours of a small scope and, *)
(* as it does, prints every complete behaviour; the harness replays them   *)
(* on the real library (spec -> implementation).                           *)
(***************************************************************************)
EXTENDS AperOps, TLC, Json, FiniteSets

CONSTANTS FirstOps,     \* operations the writer starts with, in groups: a sequence of functions to sets
          OpSet,        \* operations the writer goes on with: a sequence of sets
          Leads,     \* numbers of bits in the buffer at the start (one of 0..7)
          MaxOps,       \* operations per behaviour
          Cuts,         \* numbers of octets removed from the end in transit
          Flips,        \* positions (from the end) of a bit inverted in transit, 0: none
          Wires,        \* octet strings received from elsewhere: a sequence of sets
          WireOps,      \* types they are decoded as: a sequence of sets
          Skips,        \* numbers of bits read before that
          Emit          \* print behaviours?

VARIABLES phase,        \* "w" writing, "r" reading, "x" finished
          buf,          \* the buffer, bits
          log,          \* writer's log: [o, ok, len]
          skip,         \* bits of prefix
          fault,        \* <<octets cut, bit flipped>>
          pos,          \* reader's position
          out,          \* reader's log: [ok, v, p]
          first         \* the writer's first operation, chosen at the start
vars == <<phase, buf, log, skip, fault, pos, out, first>>

Prefix(k) == [i \in 1..k |-> i % 2]

Init ==
  \/ /\ phase = "w" /\ skip \in Leads /\ buf = Prefix(skip)
     /\ log = <<>> /\ fault = <<0, 0>> /\ pos = 0 /\ out = <<>>
     /\ \E g \in DOMAIN FirstOps : LET f == FirstOps[g] IN \E k \in DOMAIN f : \E o \in f[k] : first = <<o>>
  \/ /\ phase = "r" /\ skip \in Skips
     /\ \E g \in DOMAIN Wires : \E w \in Wires[g], h \in DOMAIN WireOps : \E o \in WireOps[h] :
          /\ buf = OctetsToBits(w) /\ Len(buf) >= skip
          /\ log = <<[o |-> o, ok |-> TRUE, len |-> 0]>>
     /\ fault = <<-1, 0>> /\ pos = skip /\ out = <<>> /\ first = <<>>

\* The library call Encode(o): appends the encoding or refuses.  What a refused
\* call leaves in the buffer is not specified, the writer gives up.
Encode(o) ==
  /\ phase = "w" /\ Len(log) < MaxOps
  /\ first' = <<>>
  /\ LET e == EncOp(buf, o)
     IN  /\ buf' = IF e.ok THEN e.b ELSE buf
         /\ log' = Append(log, [o |-> o, ok |-> e.ok, len |-> IF e.ok THEN Len(e.b) ELSE 0])
         /\ phase' = IF e.ok THEN "w" ELSE "x"
  /\ UNCHANGED <<skip, fault, pos, out>>

\* The buffer becomes octets and is received, possibly damaged.
Transfer(cut, flip) ==
  /\ phase = "w" /\ log # <<>> /\ UNCHANGED first
  /\ LET whole == PadTo8(buf)
         kept  == SubSeq(whole, 1, Len(whole) - 8 * cut)
         f     == Len(kept) - flip + 1
     IN  /\ 8 * cut <= Len(whole)
         /\ flip > 0 => f > skip /\ f <= Len(kept)
         /\ Len(kept) >= skip
         /\ buf' = IF flip = 0 THEN kept ELSE [kept EXCEPT ![f] = 1 - @]
  /\ fault' = <<cut, flip>> /\ phase' = "r" /\ pos' = skip
  /\ UNCHANGED <<log, skip, out>>

\* The library call Decode for the type of the next operation.
Decode ==
  /\ phase = "r" /\ Len(out) < Len(log)
  /\ LET o == log[Len(out) + 1].o
         d == DecOp(buf, pos, o)
     IN  /\ out' = Append(out, IF d.ok THEN [ok |-> TRUE, v |-> <<d.v>>, p |-> d.p]
                               ELSE [ok |-> FALSE, v |-> <<>>, p |-> pos])
         /\ pos' = IF d.ok THEN d.p ELSE pos
         /\ phase' = IF d.ok /\ Len(out') < Len(log) THEN "r" ELSE "x"
  /\ UNCHANGED <<buf, log, skip, fault, first>>

Next == (IF first = <<>> THEN \E g \in DOMAIN OpSet : \E o \in OpSet[g] : Encode(o) ELSE Encode(first[1])) \/ (\E c \in Cuts, f \in Flips : Transfer(c, f)) \/ Decode
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Undamaged == fault = <<0, 0>>

\* C06: an encoder accepts exactly the values the constraint admits.
RefusesExactly == \A i \in 1..Len(log) : fault[1] # -1 => (log[i].ok <=> Admits(log[i].o))

\* C01-C05, C09: what was written is read, from exactly its own bits.
RoundTrip == Undamaged => \A i \in 1..Len(out) :
               /\ out[i].ok
               /\ out[i].v[1] = Expected(log[i].o)
               /\ out[i].p = log[i].len

\* C07: the reader stays inside the buffer and never goes back.
Confined == /\ pos <= Len(buf)
            /\ \A i \in 1..Len(out) : out[i].p <= Len(buf) /\ out[i].p >= (IF i = 1 THEN skip ELSE out[i - 1].p)

\* C08: a value that is returned satisfies its constraint.
Admissible == \A i \in 1..Len(out) : out[i].ok => InConstraint(log[i].o, out[i].v[1])

\* A reader of a message cut by one octet or more cannot return all the values, unless
\* the last ones take no bits.
Needs == fault[1] > 0 /\ phase = "x" /\ Len(out) > 0 /\ out[Len(out)].ok
            => log[Len(log)].len <= Len(buf) \/ fault[2] > 0

\* C09: writing only appends.
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendOnly == [][phase = "w" /\ phase' = "w" => IsPrefixOf(buf, buf')]_vars

\* Every complete behaviour, for the replay.
Behaviour == [skip |-> skip, fault |-> fault, bytes |-> ToOctets(buf),
              log |-> log, out |-> out]
Emitted == phase = "x" /\ Emit => PrintT("B " \o ToJson(Behaviour))
=============================================================================
