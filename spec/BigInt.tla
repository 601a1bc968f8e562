------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers of any size for TLC, whose own integers are 32 bits wide.      *)
(*                                                                         *)
(* A natural number is the sequence of its octets, most significant first, *)
(* without leading zeros: zero is << >>.  An integer is a record           *)
(* [n |-> negative?, m |-> magnitude], zero not being negative.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Strip(s) == IF s = <<>> THEN s
            ELSE IF s[1] # 0 THEN s
            ELSE IF \A i \in 1..Len(s) : s[i] = 0 THEN <<>>
            ELSE SubSeq(s, CHOOSE i \in 1..Len(s) : s[i] # 0 /\ \A j \in 1..(i - 1) : s[j] = 0, Len(s))

RECURSIVE NatOf(_)                       \* of a TLC natural number
NatOf(k) == IF k = 0 THEN <<>> ELSE Append(NatOf(k \div 256), k % 256)

RECURSIVE NatToInt(_)                    \* only for numbers below 2^31
NatToInt(a) == IF a = <<>> THEN 0
               ELSE NatToInt(SubSeq(a, 1, Len(a) - 1)) * 256 + a[Len(a)]

NatSmall(a) == Len(a) <= 3               \* NatToInt is defined

LexCmp(a, b) ==                           \* of the same length
  IF a = b THEN 0
  ELSE LET i == CHOOSE k \in 1..Len(a) : a[k] # b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
       IN  IF a[i] < b[i] THEN -1 ELSE 1

NatCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE LexCmp(a, b)

NatLE(a, b) == NatCmp(a, b) <= 0

\* Octet i, counted from the least significant one (0), of a natural number.
Oct(a, i) == IF i < Len(a) THEN a[Len(a) - i] ELSE 0

Max2(x, y) == IF x > y THEN x ELSE y

\* Schoolbook arithmetic from the least significant octet; c is the carry.
Digits(n) == [i \in 1..n |-> i - 1]
NatAdd(a, b) ==
  LET step(acc, i) == LET d == Oct(a, i) + Oct(b, i) + acc.c
                      IN  [c |-> d \div 256, s |-> <<d % 256>> \o acc.s]
      r == FoldLeft(step, [c |-> 0, s |-> <<>>], Digits(Max2(Len(a), Len(b))))
  IN  IF r.c = 0 THEN r.s ELSE <<r.c>> \o r.s

NatSub(a, b) ==                          \* a >= b
  LET step(acc, i) == LET d == Oct(a, i) - Oct(b, i) - acc.c
                      IN  [c |-> IF d < 0 THEN 1 ELSE 0, s |-> <<d % 256>> \o acc.s]
  IN  Strip(FoldLeft(step, [c |-> 0, s |-> <<>>], Digits(Len(a))).s)

NatMulSmall(a, k) ==                     \* k < 2^20
  LET step(acc, i) == LET d == Oct(a, i) * k + acc.c
                      IN  [c |-> d \div 256, s |-> <<d % 256>> \o acc.s]
      r == FoldLeft(step, [c |-> 0, s |-> <<>>], Digits(Len(a)))
  IN  Strip(NatOf(r.c) \o r.s)

\* 2^k as a natural number
Pow2(k) == <<2 ^ (k % 8)>> \o [i \in 1..(k \div 8) |-> 0]

\* The number of bits needed for a natural number (0 for zero).
RECURSIVE OctetBits(_)
OctetBits(o) == IF o = 0 THEN 0 ELSE 1 + OctetBits(o \div 2)
NatBitLen(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * 8 + OctetBits(a[1])

(***************************************************************************)
(* Integers                                                                *)
(***************************************************************************)
Mk(neg, mag) == [n |-> neg /\ mag # <<>>, m |-> mag]
IntOf(k) == IF k < 0 THEN Mk(TRUE, NatOf(0 - k)) ELSE Mk(FALSE, NatOf(k))
IZero == IntOf(0)
Neg(x) == Mk(~x.n, x.m)
IntAdd(x, y) ==
  IF x.n = y.n THEN Mk(x.n, NatAdd(x.m, y.m))
  ELSE IF NatCmp(x.m, y.m) >= 0 THEN Mk(x.n, NatSub(x.m, y.m))
  ELSE Mk(y.n, NatSub(y.m, x.m))
IntSub(x, y) == IntAdd(x, Neg(y))
IntCmp(x, y) ==
  IF x.n # y.n THEN IF x.n THEN -1 ELSE 1
  ELSE IF x.n THEN NatCmp(y.m, x.m) ELSE NatCmp(x.m, y.m)
IntLE(x, y) == IntCmp(x, y) <= 0
IntLT(x, y) == IntCmp(x, y) < 0
IntMin(x, y) == IF IntLE(x, y) THEN x ELSE y
IntMax(x, y) == IF IntLE(x, y) THEN y ELSE x
IntSmall(x) == IF x.n THEN 0 - NatToInt(x.m) ELSE NatToInt(x.m)   \* when NatSmall(x.m)

I128Max == Mk(FALSE, <<127>> \o [i \in 1..15 |-> 255])
I128Min == Mk(TRUE, <<128>> \o [i \in 1..15 |-> 0])
FitsI128(x) == IntLE(I128Min, x) /\ IntLE(x, I128Max)

\* Two's complement: the smallest number of bits (with the sign) and octets.
SignedBits(x) == IF x.n THEN 1 + NatBitLen(NatSub(x.m, <<1>>)) ELSE 1 + NatBitLen(x.m)
SignedOctets(x) == (SignedBits(x) + 7) \div 8

\* A natural number in exactly k octets.
PadOctets(a, k) == [i \in 1..k |-> Oct(a, k - i)]

\* Two's complement in exactly k octets (k >= SignedOctets(x)).
TwosOctets(x, k) ==
  IF x.n THEN PadOctets(NatSub(<<1>> \o [i \in 1..k |-> 0], x.m), k)
  ELSE PadOctets(x.m, k)

FromOctets(o) == Strip(o)
FromTwos(o) ==                           \* o is not empty
  IF o[1] >= 128 THEN Mk(TRUE, NatSub(<<1>> \o [i \in 1..Len(o) |-> 0], Strip(o)))
  ELSE Mk(FALSE, Strip(o))
=============================================================================
