-------------------------------- MODULE Aper --------------------------------
(***************************************************************************)
(* The encodings of ALIGNED PER (X.691), as far as hampi supports them, as *)
(* functions over a buffer of bits.  Clause numbers are those of X.691     *)
(* (2015).  Nothing here is taken from the implementation, except what the *)
(* implementation documents as unsupported (see Unsupported below).        *)
(*                                                                         *)
(* Enc* take the buffer written so far and return [ok, b]: the buffer with *)
(* the encoding appended, or a refusal.  Dec* take a buffer and a position *)
(* (number of bits already read) and return [ok, v, p].                    *)
(*                                                                         *)
(* A bound is << >> (absent) or <<integer>> with integers as in BigInt.    *)
(***************************************************************************)
EXTENDS BigInt

None == <<>>
Some(x) == <<x>>
Has(o) == o # <<>>
Get(o) == o[1]

Bad == [ok |-> FALSE]
W(b) == [ok |-> TRUE, b |-> b]
R(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

(***************************************************************************)
(* Bits                                                                    *)
(***************************************************************************)
OctetToBits(o) == <<(o \div 128) % 2, (o \div 64) % 2, (o \div 32) % 2, (o \div 16) % 2,
                    (o \div 8) % 2, (o \div 4) % 2, (o \div 2) % 2, o % 2>>
OctetTable == [o \in 0..255 |-> OctetToBits(o)]
OctetsToBits(os) == [i \in 1..(8 * Len(os)) |-> OctetTable[os[(i + 7) \div 8]][((i - 1) % 8) + 1]]
RECURSIVE BitsVal(_, _, _)               \* of up to 30 bits
BitsVal(b, p, k) == IF k = 0 THEN 0 ELSE 2 * BitsVal(b, p, k - 1) + b[p + k]
OctetAt(b, q) == 128 * b[q + 1] + 64 * b[q + 2] + 32 * b[q + 3] + 16 * b[q + 4] + 8 * b[q + 5] + 4 * b[q + 6] + 2 * b[q + 7] + b[q + 8]
BitsToOctets(b, p, n) == [i \in 1..n |-> OctetAt(b, p + 8 * (i - 1))]   \* n octets from position p
Bit(x) == <<IF x THEN 1 ELSE 0>>
SmallBits(v, k) == [i \in 1..k |-> (v \div (2 ^ (k - i))) % 2]           \* v < 2^30
Zeros(k) == [i \in 1..k |-> 0]
PadTo8(b) == LET r == Len(b) % 8 IN IF r = 0 THEN b ELSE b \o Zeros(8 - r)
ToOctets(b) == LET q == PadTo8(b) IN BitsToOctets(q, 0, Len(q) \div 8)

\* 11.1.1 (aligned variant): skip zero padding up to the next octet boundary.
AlignDec(b, p) ==
  IF p % 8 = 0 THEN R(0, p)
  ELSE LET q == p + 8 - (p % 8)
       IN  IF q > Len(b) THEN Bad
           ELSE IF \E i \in (p + 1)..q : b[i] = 1 THEN Bad
           ELSE R(0, q)

TakeBits(b, p, k) == IF p + k > Len(b) THEN Bad ELSE R(SubSeq(b, p + 1, p + k), p + k)
TakeOctets(b, p, n) == IF p + 8 * n > Len(b) THEN Bad ELSE R(BitsToOctets(b, p, n), p + 8 * n)
TakeSmall(b, p, k) == IF p + k > Len(b) THEN Bad ELSE R(BitsVal(b, p, k), p + k)

(***************************************************************************)
(* 11.5  Constrained whole numbers                                         *)
(***************************************************************************)
Span(lb, ub) == IntSub(ub, lb).m         \* "range" - 1; lb <= ub

EncConstrainedNat(b, span, off) ==       \* 0 <= off <= span, both naturals
  IF NatLE(span, <<254>>) THEN           \* 11.5.7.1
     b \o SmallBits(NatToInt(off), NatBitLen(span))
  ELSE IF span = <<255>> THEN            \* 11.5.7.2
     PadTo8(b) \o SmallBits(NatToInt(off), 8)
  ELSE IF NatLE(span, <<255, 255>>) THEN \* 11.5.7.3
     PadTo8(b) \o SmallBits(NatToInt(off), 16)
  ELSE                                   \* 11.5.7.4: indefinite length case
     LET n == Max2(1, Len(off))
         k == NatBitLen(NatOf(Len(span) - 1))     \* length in 1..octets of the largest offset
     IN  PadTo8(b \o SmallBits(n - 1, k)) \o OctetsToBits(PadOctets(off, n))

\* Unsupported: more than 2^127 - 1 values.
TooWide(lb, ub) == NatCmp(Span(lb, ub), NatSub(I128Max.m, <<1>>)) > 0
EncConstrained(b, lb, ub, v) ==
  IF TooWide(lb, ub) THEN Bad
  ELSE IF IntLT(v, lb) \/ IntLT(ub, v) THEN Bad
  ELSE W(EncConstrainedNat(b, Span(lb, ub), IntSub(v, lb).m))

DecOffset(b, p, span) ==                 \* the offset as a natural number
  IF NatLE(span, <<254>>) THEN
     LET t == TakeSmall(b, p, NatBitLen(span)) IN IF t.ok THEN R(NatOf(t.v), t.p) ELSE Bad
  ELSE IF NatLE(span, <<255, 255>>) THEN
     LET a == AlignDec(b, p)
     IN  IF ~a.ok THEN Bad
         ELSE LET t == TakeSmall(b, a.p, IF span = <<255>> THEN 8 ELSE 16)
              IN  IF t.ok THEN R(NatOf(t.v), t.p) ELSE Bad
  ELSE LET k == NatBitLen(NatOf(Len(span) - 1))
           t == TakeSmall(b, p, k)
       IN  IF ~t.ok \/ t.v + 1 > Len(span) THEN Bad
           ELSE LET a == AlignDec(b, t.p)
                IN  IF ~a.ok THEN Bad
                    ELSE LET o == TakeOctets(b, a.p, t.v + 1)
                         IN  IF o.ok THEN R(Strip(o.v), o.p) ELSE Bad

DecConstrained(b, p, lb, ub) ==
  LET o == DecOffset(b, p, Span(lb, ub))
  IN  IF TooWide(lb, ub) \/ ~o.ok THEN Bad
      ELSE IF ~NatLE(o.v, Span(lb, ub)) THEN Bad
      ELSE R(IntAdd(lb, Mk(FALSE, o.v)), o.p)

(***************************************************************************)
(* 11.9  Length determinants.  Lengths are TLC integers.                   *)
(***************************************************************************)
K16 == 16384
K64 == 65536
\* 11.9.4.1: the constrained form is for upper bounds below 64K.
Constrained(ub) == Has(ub) /\ IntLT(Get(ub), IntOf(K64))
LowOf(lb) == IF Has(lb) THEN Get(lb) ELSE IZero

\* 11.9.3.5 - 11.9.3.8; the fragmented form is unsupported when encoding.
EncUnconstrainedLen(b, n) ==
  IF n < 128 THEN W(PadTo8(b) \o SmallBits(n, 8))
  ELSE IF n < K16 THEN W(PadTo8(b) \o SmallBits(32768 + n, 16))
  ELSE Bad

DecUnconstrainedLen(b, p) ==
  LET a == AlignDec(b, p)
  IN  IF ~a.ok \/ a.p + 8 > Len(b) THEN Bad
      ELSE LET o == BitsVal(b, a.p, 8)
           IN  IF o < 128 THEN R(o, a.p + 8)
               ELSE IF o < 192 THEN
                    IF a.p + 16 > Len(b) THEN Bad
                    ELSE R((o - 128) * 256 + BitsVal(b, a.p + 8, 8), a.p + 16)
               ELSE IF o \in 193..196 THEN R((o - 192) * K16, a.p + 8)
               ELSE Bad

SizeOk(lb, ub, n) == /\ (Has(lb) => IntLE(Get(lb), IntOf(n)))
                     /\ (Has(ub) => IntLE(IntOf(n), Get(ub)))

EncLen(b, lb, ub, n) ==
  IF ~SizeOk(lb, ub, n) THEN Bad
  ELSE IF Constrained(ub) THEN EncConstrained(b, LowOf(lb), Get(ub), IntOf(n))
  ELSE EncUnconstrainedLen(b, n)

DecLen(b, p, lb, ub) ==
  IF Constrained(ub) THEN
     LET t == DecConstrained(b, p, LowOf(lb), Get(ub))
     IN  IF t.ok THEN R(IntSmall(t.v), t.p) ELSE Bad
  ELSE DecUnconstrainedLen(b, p)

\* 11.9.3.4: normally small length
EncSmallLen(b, n) ==
  IF n = 0 THEN Bad
  ELSE IF n <= 64 THEN W(b \o <<0>> \o SmallBits(n - 1, 6))
  ELSE EncUnconstrainedLen(b \o <<1>>, n)
DecSmallLen(b, p) ==
  LET x == TakeSmall(b, p, 1)
  IN  IF ~x.ok THEN Bad
      ELSE IF x.v = 0 THEN LET t == TakeSmall(b, x.p, 6) IN IF t.ok THEN R(t.v + 1, t.p) ELSE Bad
      ELSE DecUnconstrainedLen(b, x.p)

\* Parts of a string or list: a list of <<length, from, to>> over a buffer, each
\* item taking w bits (11.9.3.8: a part of 16K or more is followed by another).
IsFragment(n, ub) == n >= K16 /\ ~Constrained(ub)

(***************************************************************************)
(* 11.7, 11.8  Semi-constrained and unconstrained whole numbers            *)
(***************************************************************************)
EncSemi(b, lb, v) ==
  IF IntLT(v, lb) THEN Bad
  ELSE LET off == IntSub(v, lb).m
           n   == Max2(1, Len(off))
       IN  IF NatCmp(off, I128Max.m) > 0 THEN Bad         \* Unsupported
           ELSE W(EncUnconstrainedLen(b, n).b \o OctetsToBits(PadOctets(off, n)))
EncUnconstrained(b, v) ==
  LET n == SignedOctets(v)
  IN  W(EncUnconstrainedLen(b, n).b \o OctetsToBits(TwosOctets(v, n)))

\* Octets of a number after a general length: fragmented ones exceed 128 bits.
NumberOctets(b, p) ==
  LET l == DecUnconstrainedLen(b, p)
  IN  IF ~l.ok THEN Bad
      ELSE IF l.v > 16 THEN Bad                           \* Unsupported: more than 128 bits
      ELSE TakeOctets(b, l.p, l.v)
DecSemi(b, p, lb) ==
  LET o == NumberOctets(b, p)
  IN  IF ~o.ok THEN Bad
      ELSE LET off == Strip(o.v)
               v   == IntAdd(lb, Mk(FALSE, off))
           IN  IF NatCmp(off, I128Max.m) > 0 \/ ~FitsI128(v) THEN Bad
               ELSE R(v, o.p)
DecUnconstrained(b, p) ==
  LET o == NumberOctets(b, p)
  IN  IF ~o.ok THEN Bad
      ELSE IF o.v = <<>> THEN Bad
      ELSE R(FromTwos(o.v), o.p)

\* 11.6: normally small non-negative whole number (only decoded)
DecSmallNumber(b, p) ==
  LET x == TakeSmall(b, p, 1)
  IN  IF ~x.ok THEN Bad
      ELSE IF x.v = 0 THEN LET t == TakeSmall(b, x.p, 6) IN IF t.ok THEN R(IntOf(t.v), t.p) ELSE Bad
      ELSE DecSemi(b, x.p, IZero)

(***************************************************************************)
(* 13  INTEGER.  v is the value; extension values are unsupported when     *)
(* encoding.                                                               *)
(***************************************************************************)
ExtBit(b, ext) == IF ext THEN b \o <<0>> ELSE b
\* Reads the extension bit: v = 1 when the value is outside of the root.
ReadExt(b, p, ext) == IF ext THEN TakeSmall(b, p, 1) ELSE R(0, p)

EncInteger(b0, lb, ub, ext, v, extended) ==
  LET b == ExtBit(b0, ext)
  IN  IF extended THEN Bad
      ELSE IF ~Has(lb) THEN EncUnconstrained(b, v)
      ELSE IF ~Has(ub) THEN EncSemi(b, Get(lb), v)
      ELSE EncConstrained(b, Get(lb), Get(ub), v)

DecInteger(b, p0, lb, ub, ext) ==
  LET x == ReadExt(b, p0, ext)
  IN  IF ~x.ok THEN Bad
      ELSE LET t == IF x.v = 1 \/ ~Has(lb) THEN DecUnconstrained(b, x.p)
                    ELSE IF ~Has(ub) THEN DecSemi(b, x.p, Get(lb))
                    ELSE DecConstrained(b, x.p, Get(lb), Get(ub))
           IN  IF t.ok THEN R([v |-> t.v, x |-> x.v = 1], t.p) ELSE Bad

(***************************************************************************)
(* 12, 14, 23, 19  BOOLEAN, ENUMERATED, choice index, sequence preamble    *)
(***************************************************************************)
EncBool(b, v) == W(b \o Bit(v))
DecBool(b, p) == LET t == TakeSmall(b, p, 1) IN IF t.ok THEN R(t.v = 1, t.p) ELSE Bad

EncIndex(b, lb, ub, ext, v, extended) == EncInteger(b, lb, ub, ext, v, extended)
DecIndex(b, p0, lb, ub, ext) ==
  LET x == ReadExt(b, p0, ext)
  IN  IF ~x.ok THEN Bad
      ELSE LET t == IF x.v = 1 THEN DecSmallNumber(b, x.p)
                    ELSE IF ~Has(lb) THEN DecUnconstrained(b, x.p)
                    ELSE IF ~Has(ub) THEN DecSemi(b, x.p, Get(lb))
                    ELSE DecConstrained(b, x.p, Get(lb), Get(ub))
           IN  IF t.ok THEN R([v |-> t.v, x |-> x.v = 1], t.p) ELSE Bad

EncSeqHeader(b, ext, bitmap, extended) ==
  IF extended THEN Bad ELSE W(ExtBit(b, ext) \o bitmap)
DecSeqHeader(b, p0, ext, n) ==
  LET x == ReadExt(b, p0, ext)
  IN  IF ~x.ok THEN Bad
      ELSE LET t == TakeBits(b, x.p, n)
           IN  IF t.ok THEN R([v |-> t.v, x |-> x.v = 1], t.p) ELSE Bad

(***************************************************************************)
(* 16, 17  BIT STRING, OCTET STRING: w bits per item.                      *)
(***************************************************************************)
\* 16.9, 16.10, 17.6, 17.7: only a fixed length of up to 16 bits is not aligned;
\* nothing is aligned for an empty contents (11.9.3.3 NOTE, 16.11, 17.8).
FixedShort(lb, ub, w) == Has(ub) /\ Has(lb) /\ Get(lb) = Get(ub) /\
                         Constrained(ub) /\ IntSmall(Get(ub)) * w <= 16
AlignFor(b, lb, ub, w, n) == IF n = 0 \/ FixedShort(lb, ub, w) THEN b ELSE PadTo8(b)

EncString(b0, lb, ub, ext, w, bits, extended) ==      \* bits: the contents, w bits per item
  LET n == Len(bits) \div w
      l == EncLen(ExtBit(b0, ext), lb, ub, n)
  IN  IF extended \/ n >= K16 \/ ~l.ok THEN Bad
      ELSE W(AlignFor(l.b, lb, ub, w, n) \o bits)

RECURSIVE DecParts(_, _, _, _, _)
DecParts(b, p, lb, ub, w) ==
  LET l == DecLen(b, p, lb, ub)
  IN  IF ~l.ok THEN Bad
      ELSE LET a == IF l.v = 0 \/ FixedShort(lb, ub, w) THEN R(0, l.p) ELSE AlignDec(b, l.p)
           IN  IF ~a.ok THEN Bad
               ELSE LET t == TakeBits(b, a.p, l.v * w)
                    IN  IF ~t.ok THEN Bad
                        ELSE IF ~IsFragment(l.v, ub) THEN t
                        ELSE LET rest == DecParts(b, t.p, lb, ub, w)
                             IN  IF rest.ok THEN R(t.v \o rest.v, rest.p) ELSE Bad

DecString(b, p0, lb, ub, ext, w) ==
  LET x == ReadExt(b, p0, ext)
  IN  IF ~x.ok THEN Bad
      ELSE IF x.v = 1 THEN DecParts(b, x.p, None, None, w)
      ELSE DecParts(b, x.p, lb, ub, w)

EncBitString(b, lb, ub, ext, bits, extended) == EncString(b, lb, ub, ext, 1, bits, extended)
DecBitString(b, p, lb, ub, ext) == DecString(b, p, lb, ub, ext, 1)
EncOctetString(b, lb, ub, ext, octets, extended) ==
  EncString(b, lb, ub, ext, 8, OctetsToBits(octets), extended)
DecOctetString(b, p, lb, ub, ext) ==
  LET t == DecString(b, p, lb, ub, ext, 8)
  IN  IF t.ok THEN R(ToOctets(t.v), t.p) ELSE Bad

(***************************************************************************)
(* 30  Character strings, eight bits per character (VisibleString and      *)
(* PrintableString of the aligned variant), and UTF8String.                *)
(***************************************************************************)
\* Well-formed UTF-8 (Unicode table 3-7)
RECURSIVE Utf8Ok(_, _)
Utf8Ok(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET c == s[i]
           Cont(j, lo, hi) == j <= Len(s) /\ s[j] >= lo /\ s[j] <= hi
       IN  IF c <= 127 THEN Utf8Ok(s, i + 1)
           ELSE IF c \in 194..223 THEN Cont(i + 1, 128, 191) /\ Utf8Ok(s, i + 2)
           ELSE IF c = 224 THEN Cont(i + 1, 160, 191) /\ Cont(i + 2, 128, 191) /\ Utf8Ok(s, i + 3)
           ELSE IF c = 237 THEN Cont(i + 1, 128, 159) /\ Cont(i + 2, 128, 191) /\ Utf8Ok(s, i + 3)
           ELSE IF c \in 225..239 THEN Cont(i + 1, 128, 191) /\ Cont(i + 2, 128, 191) /\ Utf8Ok(s, i + 3)
           ELSE IF c = 240 THEN Cont(i + 1, 144, 191) /\ Cont(i + 2, 128, 191) /\ Cont(i + 3, 128, 191) /\ Utf8Ok(s, i + 4)
           ELSE IF c \in 241..243 THEN Cont(i + 1, 128, 191) /\ Cont(i + 2, 128, 191) /\ Cont(i + 3, 128, 191) /\ Utf8Ok(s, i + 4)
           ELSE IF c = 244 THEN Cont(i + 1, 128, 143) /\ Cont(i + 2, 128, 191) /\ Cont(i + 3, 128, 191) /\ Utf8Ok(s, i + 4)
           ELSE FALSE
Utf8Valid(s) == (\A i \in 1..Len(s) : s[i] <= 127) \/ Utf8Ok(s, 1)
Utf8Chars(s) == Len(SelectSeq(s, LAMBDA c : c \notin 128..191))

\* 30.5.6, 30.5.7
CharsAligned(lb, ub, n) ==
  IF n = 0 THEN FALSE
  ELSE IF ~Constrained(ub) THEN TRUE
  ELSE IF Has(lb) /\ Get(lb) = Get(ub) THEN IntSmall(Get(ub)) * 8 > 16
  ELSE IntSmall(Get(ub)) * 8 >= 16

EncChars(b0, lb, ub, ext, s, extended) ==
  LET l == EncLen(ExtBit(b0, ext), lb, ub, Len(s))
  IN  IF extended \/ ~l.ok THEN Bad
      ELSE W((IF CharsAligned(lb, ub, Len(s)) THEN PadTo8(l.b) ELSE l.b) \o OctetsToBits(s))
DecChars(b, p0, lb, ub, ext) ==
  LET x == ReadExt(b, p0, ext)
  IN  IF ~x.ok THEN Bad
      ELSE LET t == IF x.v = 1 \/ ~Constrained(ub) THEN DecOctetString(b, x.p, None, None, FALSE)
                    ELSE LET l == DecLen(b, x.p, lb, ub)
                         IN  IF ~l.ok THEN Bad
                             ELSE LET a == IF CharsAligned(lb, ub, l.v) THEN AlignDec(b, l.p) ELSE R(0, l.p)
                                  IN  IF a.ok THEN TakeOctets(b, a.p, l.v) ELSE Bad
           IN  IF t.ok THEN IF Utf8Valid(t.v) THEN t ELSE Bad ELSE Bad

\* 30.6: constraints on a UTF8String are not PER-visible; the value has to satisfy them.
EncUtf8(b, lb, ub, ext, s, extended) ==
  IF extended \/ ~SizeOk(lb, ub, Utf8Chars(s)) THEN Bad
  ELSE LET l == EncUnconstrainedLen(b, Len(s))
       IN  IF l.ok THEN W(l.b \o OctetsToBits(s)) ELSE Bad
DecUtf8(b, p) ==
  LET t == DecOctetString(b, p, None, None, FALSE)
  IN  IF t.ok THEN IF Utf8Valid(t.v) THEN t ELSE Bad ELSE Bad

\* 11.2: the contents of an open type, or any complete encoding, in whole octets.
AppendAligned(b, c) == PadTo8(b) \o PadTo8(c)
=============================================================================
