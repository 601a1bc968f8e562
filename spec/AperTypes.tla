------------------------------ MODULE AperTypes ------------------------------
(***************************************************************************)
(* The encodings of types built from other types (X.691 clauses 19 - 23    *)
(* and 11.2): SEQUENCE, SEQUENCE OF, CHOICE, open types selected by a key, *)
(* to any depth, over the primitive types of Aper.                         *)
(*                                                                         *)
(* A type is a record with a field t:                                      *)
(*   bool, null                                                            *)
(*   int     lb, ub, ext; clo, chi: limits of what holds the value         *)
(*   enum    lb, ub, ext; clo, chi                                         *)
(*   bit, oct, vis, prt, utf     lb, ub, ext of the size                   *)
(*   seq     ext; c: components [ty, opt, key]                             *)
(*   seqof   lb, ub, ext of the size; of                                   *)
(*   choice  ext; ub: greatest root index; a: alternatives [k, x, ty], x   *)
(*           for those of the extension                                    *)
(*   open    a: alternatives [k, ty]                                       *)
(* A value is, accordingly, a boolean, 0, an integer (BigInt), bits or     *)
(* octets, [c, a] with components <<>> or <<v>> and additions <<>> or      *)
(* <<octets>>, a sequence, [i, v] with the number of the alternative.      *)
(* [i |-> 0, k, v |-> octets] is an alternative of the extension that is   *)
(* not known here.                                                         *)
(*                                                                         *)
(* Enc has two modes.  The library's (peer = FALSE) refuses what hampi     *)
(* does not implement; a peer with a newer version of the definition, and  *)
(* with no such limits, also writes extensions and fragments.              *)
(***************************************************************************)
EXTENDS Aper, FiniteSets

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
InSize(ty, n) == SizeOk(ty.lb, ty.ub, n)
InBounds(ty, v) == (Has(ty.lb) => IntLE(Get(ty.lb), v)) /\ (Has(ty.ub) => IntLE(v, Get(ty.ub)))

\* 11.9.3.8: the parts in which a peer sends n items
RECURSIVE PartSizes(_)
PartSizes(n) == IF n < K16 THEN <<n>>
                ELSE LET k == IF n \div K16 > 4 THEN 4 ELSE n \div K16 IN <<k * K16>> \o PartSizes(n - k * K16)
PartHead(b, n) == IF n < K16 THEN EncUnconstrainedLen(b, n).b ELSE PadTo8(b) \o SmallBits(192 + n \div K16, 8)

\* An open type: the complete encoding in octets behind its length.
EncOpenOctets(b, os) ==
  LET o == IF os = <<>> THEN <<0>> ELSE os
      l == EncUnconstrainedLen(b, Len(o))
  IN  IF l.ok THEN W(l.b \o OctetsToBits(o)) ELSE Bad

RECURSIVE Enc(_, _, _, _)
Then(r, ty, v, peer) == IF r.ok THEN Enc(r.b, ty, v, peer) ELSE Bad

EncSeq(b, ty, v, peer) ==
  LET opts    == SelectSeq([i \in 1..Len(ty.c) |-> i], LAMBDA i : ty.c[i].opt)
      bitmap  == [j \in 1..Len(opts) |-> IF v.c[opts[j]] # <<>> THEN 1 ELSE 0]
      more    == v.a # <<>>
      root    == FoldLeft(LAMBDA r, i : IF v.c[i] = <<>> THEN r ELSE Then(r, ty.c[i].ty, v.c[i][1], peer),
                          W((IF ty.ext THEN b \o Bit(more) ELSE b) \o bitmap),
                          [i \in 1..Len(ty.c) |-> i])
  IN  IF ~more THEN root
      ELSE IF ~peer \/ ~ty.ext \/ ~root.ok THEN Bad
      ELSE LET l == EncSmallLen(root.b, Len(v.a))                \* 19.7, 19.8
           IN  FoldLeft(LAMBDA r, x : IF x = <<>> \/ ~r.ok THEN r ELSE EncOpenOctets(r.b, x[1]),
                        W(l.b \o [i \in 1..Len(v.a) |-> IF v.a[i] # <<>> THEN 1 ELSE 0]), v.a)

EncItems(b, ty, v, from, to, peer) ==
  FoldLeft(LAMBDA r, i : Then(r, ty.of, v[i], peer), W(b), [i \in 1..(to - from + 1) |-> from + i - 1])
EncSeqOf(b, ty, v, peer) ==
  LET n == Len(v)
      in == InSize(ty, n)
      c == ExtBit(b, ty.ext)
  IN  IF in /\ (Constrained(ty.ub) \/ n < K16) THEN EncItems(EncLen(c, ty.lb, ty.ub, n).b, ty, v, 1, n, peer)
      ELSE IF ~peer \/ (~in /\ ~ty.ext) THEN Bad
      ELSE FoldLeft(LAMBDA r, k : IF r.ok THEN LET e == EncItems(PartHead(r.b, k), ty, v, r.n + 1, r.n + k, peer)
                                               IN  IF e.ok THEN [ok |-> TRUE, b |-> e.b, n |-> r.n + k] ELSE Bad
                                  ELSE Bad,
                    [ok |-> TRUE, b |-> IF ty.ext THEN b \o Bit(~in) ELSE b, n |-> 0], PartSizes(n))

EncSmallNumber(b, n) == W(b \o <<0>> \o SmallBits(n, 6))         \* 11.6, up to 63
EncChoice(b, ty, v, peer) ==
  IF v.i = 0 THEN IF peer /\ ty.ext THEN EncOpenOctets(EncSmallNumber(b \o <<1>>, v.k).b, v.v) ELSE Bad
  ELSE LET a == ty.a[v.i]
       IN  IF a.x THEN IF peer /\ ty.ext
                       THEN LET e == Enc(<<>>, a.ty, v.v, peer)
                            IN  IF e.ok THEN EncOpenOctets(EncSmallNumber(b \o <<1>>, a.k).b, ToOctets(e.b)) ELSE Bad
                       ELSE Bad
           ELSE Then(EncIndex(b, Some(IZero), Some(IntOf(ty.ub)), ty.ext, IntOf(a.k), FALSE), a.ty, v.v, peer)

EncOpen(b, ty, v, peer) ==
  LET e == Enc(<<>>, ty.a[v.i].ty, v.v, peer)
  IN  IF e.ok THEN EncOpenOctets(b, ToOctets(e.b)) ELSE Bad

\* The size of a string lies in its extension.
EncStringX(b, ty, v) ==
  IF ty.t = "bit" THEN EncBitString(b \o <<1>>, None, None, FALSE, v, FALSE)
  ELSE EncOctetString(b \o <<1>>, None, None, FALSE, v, FALSE)

Enc(b, ty, v, peer) ==
  CASE ty.t = "bool" -> EncBool(b, v)
    [] ty.t = "null" -> W(b)
    [] ty.t \in {"int", "enum"} /\ ~FitsI128(v) -> Bad              \* Unsupported
    [] ty.t = "int"  -> IF peer /\ ty.ext /\ ~InBounds(ty, v) THEN EncUnconstrained(b \o <<1>>, v)
                        ELSE EncInteger(b, ty.lb, ty.ub, ty.ext, v, FALSE)
    [] ty.t = "enum" -> IF peer /\ ty.ext /\ ~InBounds(ty, v) THEN IF v.n THEN Bad ELSE EncSmallNumber(b \o <<1>>, IntSmall(v) - IntSmall(Get(ty.ub)) - 1)
                        ELSE EncIndex(b, ty.lb, ty.ub, ty.ext, v, FALSE)
    [] ty.t \in {"bit", "oct", "vis", "prt"} /\ peer /\ ty.ext /\ ~InSize(ty, Len(v)) -> EncStringX(b, ty, v)
    [] ty.t = "bit"  -> EncBitString(b, ty.lb, ty.ub, ty.ext, v, FALSE)
    [] ty.t = "oct"  -> EncOctetString(b, ty.lb, ty.ub, ty.ext, v, FALSE)
    [] ty.t \in {"vis", "prt"} -> EncChars(b, ty.lb, ty.ub, ty.ext, v, FALSE)
    [] ty.t = "utf"  -> IF peer THEN EncUtf8(b, None, None, FALSE, v, FALSE) ELSE EncUtf8(b, ty.lb, ty.ub, ty.ext, v, FALSE)
    [] ty.t = "seq"  -> EncSeq(b, ty, v, peer)
    [] ty.t = "seqof" -> EncSeqOf(b, ty, v, peer)
    [] ty.t = "choice" -> EncChoice(b, ty, v, peer)
    [] ty.t = "open" -> EncOpen(b, ty, v, peer)

(***************************************************************************)
(* Decoding.  key: the value of the last key component, <<>> or <<k>>; the *)
(* value of an open type is decoded from its octets, with the same key,    *)
(* and key components within it concern only what is inside.               *)
(***************************************************************************)
RK(v, p, key) == [ok |-> TRUE, v |-> v, p |-> p, key |-> key]
Lift(t, key) == IF t.ok THEN RK(t.v, t.p, key) ELSE Bad
Holds(ty, v) == IntLE(ty.clo, v) /\ IntLE(v, ty.chi)

RECURSIVE Dec(_, _, _, _)
DecSeq(b, p, ty, key) ==
  LET opts == SelectSeq([i \in 1..Len(ty.c) |-> i], LAMBDA i : ty.c[i].opt)
      h    == DecSeqHeader(b, p, ty.ext, Len(opts))
      step(r, i) ==
        IF ~r.ok THEN Bad
        ELSE LET c == ty.c[i]
             IN  IF c.opt /\ h.v.v[Cardinality({j \in 1..i : ty.c[j].opt})] = 0
                 THEN RK(Append(r.v, <<>>), r.p, r.key)
                 ELSE LET d == Dec(b, r.p, c.ty, r.key)
                      IN  IF d.ok THEN RK(Append(r.v, <<d.v>>), d.p, IF c.key THEN <<d.v>> ELSE d.key) ELSE Bad
  IN  IF ~h.ok THEN Bad
      ELSE LET root == FoldLeft(step, RK(<<>>, h.p, key), [i \in 1..Len(ty.c) |-> i])
           IN  IF ~root.ok THEN Bad
               ELSE IF ~h.v.x THEN RK([c |-> root.v, a |-> <<>>], root.p, root.key)
               ELSE LET n == DecSmallLen(b, root.p)                      \* 19.8, 19.9: skipped
                        m == IF n.ok THEN TakeBits(b, n.p, n.v) ELSE Bad
                        e == IF m.ok THEN FoldLeft(LAMBDA r, x : IF x = 0 \/ ~r.ok THEN r
                                                                 ELSE DecOctetString(b, r.p, None, None, FALSE),
                                                   R(0, m.p), m.v)
                             ELSE Bad
                    IN  IF e.ok THEN RK([c |-> root.v, a |-> <<>>], e.p, root.key) ELSE Bad

DecItems(b, p, ty, n, key) ==
  FoldLeft(LAMBDA r, i : IF ~r.ok THEN Bad
                         ELSE LET d == Dec(b, r.p, ty.of, r.key) IN IF d.ok THEN RK(Append(r.v, d.v), d.p, d.key) ELSE Bad,
           RK(<<>>, p, key), [i \in 1..n |-> i])
RECURSIVE DecSeqOfParts(_, _, _, _, _, _)
DecSeqOfParts(b, p, ty, lb, ub, key) ==
  LET l == DecLen(b, p, lb, ub)
      d == IF l.ok THEN DecItems(b, l.p, ty, l.v, key) ELSE Bad
  IN  IF ~d.ok THEN Bad
      ELSE IF ~IsFragment(l.v, ub) THEN d
      ELSE LET rest == DecSeqOfParts(b, d.p, ty, lb, ub, d.key)
           IN  IF rest.ok THEN RK(d.v \o rest.v, rest.p, rest.key) ELSE Bad
DecSeqOf(b, p, ty, key) ==
  LET x == ReadExt(b, p, ty.ext)
  IN  IF ~x.ok THEN Bad
      ELSE IF x.v = 1 THEN DecSeqOfParts(b, x.p, ty, None, None, key)
      ELSE DecSeqOfParts(b, x.p, ty, ty.lb, ty.ub, key)

DecChoice(b, p, ty, key) ==
  LET x == DecIndex(b, p, Some(IZero), Some(IntOf(ty.ub)), ty.ext)
  IN  IF ~x.ok \/ (x.ok /\ x.v.x) THEN Bad                               \* additions are unsupported
      ELSE LET is == {i \in DOMAIN ty.a : ~ty.a[i].x /\ IntOf(ty.a[i].k) = x.v.v}
           IN  IF is = {} THEN Bad
               ELSE LET i == CHOOSE j \in is : TRUE
                        d == Dec(b, x.p, ty.a[i].ty, key)
                    IN  IF d.ok THEN RK([i |-> i, v |-> d.v], d.p, d.key) ELSE Bad

DecOpen(b, p, ty, key) ==
  LET o == DecOctetString(b, p, None, None, FALSE)
  IN  IF ~o.ok \/ key = <<>> THEN Bad
      ELSE LET is == {i \in DOMAIN ty.a : ty.a[i].k = key[1]}
           IN  IF is = {} THEN Bad
               ELSE LET i == CHOOSE j \in is : TRUE
                        d == Dec(OctetsToBits(o.v), 0, ty.a[i].ty, key)
                    IN  IF d.ok THEN RK([i |-> i, v |-> d.v], o.p, key) ELSE Bad

Fitting(t, ty, key) == IF t.ok THEN IF Holds(ty, t.v.v) THEN RK(t.v.v, t.p, key) ELSE Bad ELSE Bad
Dec(b, p, ty, key) ==
  CASE ty.t = "bool" -> Lift(DecBool(b, p), key)
    [] ty.t = "null" -> RK(0, p, key)
    [] ty.t = "int"  -> Fitting(DecInteger(b, p, ty.lb, ty.ub, ty.ext), ty, key)
    [] ty.t = "enum" -> LET d == DecIndex(b, p, ty.lb, ty.ub, ty.ext)
                        IN  IF d.ok THEN IF d.v.x THEN Bad ELSE Fitting(d, ty, key) ELSE Bad   \* additions are unsupported
    [] ty.t = "bit"  -> Lift(DecBitString(b, p, ty.lb, ty.ub, ty.ext), key)
    [] ty.t = "oct"  -> Lift(DecOctetString(b, p, ty.lb, ty.ub, ty.ext), key)
    [] ty.t \in {"vis", "prt"} -> Lift(DecChars(b, p, ty.lb, ty.ub, ty.ext), key)
    [] ty.t = "utf"  -> Lift(DecUtf8(b, p), key)
    [] ty.t = "seq"  -> DecSeq(b, p, ty, key)
    [] ty.t = "seqof" -> DecSeqOf(b, p, ty, key)
    [] ty.t = "choice" -> DecChoice(b, p, ty, key)
    [] ty.t = "open" -> DecOpen(b, p, ty, key)

(***************************************************************************)
(* What a receiver of a value is left with: additions it does not know are *)
(* skipped.  Defined for what it can receive at all.                       *)
(***************************************************************************)
RECURSIVE Receives(_, _, _), Known(_, _)
\* [ok, key]: every open type goes with its key, nothing is an unknown alternative or too large.
Receives(ty, v, key) ==
  CASE ty.t = "seq" ->
         FoldLeft(LAMBDA r, i : IF ~r.ok \/ v.c[i] = <<>> THEN r
                                ELSE LET d == Receives(ty.c[i].ty, v.c[i][1], r.key)
                                     IN  IF d.ok THEN [ok |-> TRUE, key |-> IF ty.c[i].key THEN v.c[i] ELSE d.key] ELSE Bad,
                  [ok |-> TRUE, key |-> key], [i \in 1..Len(ty.c) |-> i])
    [] ty.t = "seqof" -> FoldLeft(LAMBDA r, x : IF r.ok THEN Receives(ty.of, x, r.key) ELSE Bad, [ok |-> TRUE, key |-> key], v)
    [] ty.t = "choice" -> IF v.i = 0 THEN Bad ELSE IF ty.a[v.i].x THEN Bad ELSE Receives(ty.a[v.i].ty, v.v, key)
    [] ty.t = "open" -> IF v.i = 0 THEN Bad ELSE IF key = <<ty.a[v.i].k>> /\ Receives(ty.a[v.i].ty, v.v, key).ok THEN [ok |-> TRUE, key |-> key] ELSE Bad
    [] ty.t = "int" -> IF Holds(ty, v) THEN [ok |-> TRUE, key |-> key] ELSE Bad
    [] ty.t = "enum" -> IF Holds(ty, v) /\ InBounds(ty, v) THEN [ok |-> TRUE, key |-> key] ELSE Bad
    [] OTHER -> [ok |-> TRUE, key |-> key]
Known(ty, v) ==
  CASE ty.t = "seq" -> [c |-> [i \in 1..Len(v.c) |-> IF v.c[i] = <<>> THEN <<>> ELSE <<Known(ty.c[i].ty, v.c[i][1])>>], a |-> <<>>]
    [] ty.t = "seqof" -> [i \in 1..Len(v) |-> Known(ty.of, v[i])]
    [] ty.t \in {"choice", "open"} -> [i |-> v.i, v |-> Known(ty.a[v.i].ty, v.v)]
    [] OTHER -> v

\* A value that can be put into the library's hands.
RECURSIVE Representable(_, _)
Representable(ty, v) ==
  CASE ty.t = "seq" -> v.a = <<>> /\ \A i \in 1..Len(v.c) : v.c[i] # <<>> => Representable(ty.c[i].ty, v.c[i][1])
    [] ty.t = "seqof" -> \A i \in 1..Len(v) : Representable(ty.of, v[i])
    [] ty.t \in {"choice", "open"} -> v.i # 0 /\ Representable(ty.a[v.i].ty, v.v)
    [] ty.t \in {"int", "enum"} -> Holds(ty, v)
    [] OTHER -> TRUE
=============================================================================
