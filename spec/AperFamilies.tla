---------------------------- MODULE AperFamilies ----------------------------
(***************************************************************************)
(* The scopes in which AperCodec is explored: which operations, prefixes,  *)
(* faults and wire strings.  A configuration picks one of the families     *)
(* (OpSet <- IntOps(0) ...); Deep selects the larger scope.                   *)
(***************************************************************************)
EXTENDS AperCodec

CONSTANT Deep          \* thorough tier?

I(k) == IntOf(k)
N(k) == Mk(FALSE, k)
NoV == IZero
One(S) == [x \in {0} |-> S]     \* a group of one set
Strings(A, k) == [1..k -> A]
Between(a, b) == {Some(I(k)) : k \in a..b}

(***************************************************************************)
(* Integers                                                                *)
(***************************************************************************)
Exps == IF Deep THEN 0..126
        ELSE {1, 2, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 40, 63, 64, 72, 120, 126}
Near(a) == {a, NatAdd(a, <<1>>)} \cup (IF a = <<>> THEN {} ELSE {NatSub(a, <<1>>)})
MaxSpan == NatSub(I128Max.m, <<1>>)
Spans(z) == {s \in UNION {Near(Pow2(k)) : k \in Exps} \cup {NatOf(k) : k \in {0, 2, 5, 9, 12, 99, 128, 200, 253, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 65537}} :
            NatLE(s, MaxSpan)}
Lows == {I(0), I(1), I(-1), I(-128), I(255), Mk(TRUE, Pow2(31)), Mk(FALSE, Pow2(63)), I128Min}
OctetEdges == UNION {Near(Pow2(8 * j)) : j \in 0..16}
OffsetsIn(s) == {o \in {<<>>, <<1>>, s} \cup Near(s) \cup OctetEdges \cup Near(Pow2(Max2(0, NatBitLen(s) - 1))) :
                   NatLE(o, s)}
\* Values outside: next to the bounds, and those that would be the same modulo a field width.
Outside(l, s) ==
  LET u == IntAdd(l, N(s))
  IN  {x \in {IntSub(l, I(1)), IntAdd(u, I(1)), IntSub(l, N(Pow2(8))), IntAdd(l, N(Pow2(NatBitLen(s)))),
              IntAdd(l, N(Pow2(8 * Len(s)))), IntAdd(l, N(NatAdd(Pow2(8 * Len(s)), <<1>>))),
              I128Min, I128Max, I(0), Neg(u)} :
        FitsI128(x) /\ (IntLT(x, l) \/ IntLT(u, x))}
Ranges(z) == {r \in {<<l, s>> : l \in Lows, s \in Spans(0)} : FitsI128(IntAdd(r[1], N(r[2])))}
SomeRanges(z) == IF Deep THEN Ranges(0)
              ELSE {r \in Ranges(0) : r[1] \in {I(0), I(-128), I128Min} \/ r[2] \in {<<254>>, <<255>>, <<1, 0>>, <<255, 255>>, <<1, 0, 0>>}}
IntBounded(z) == [r \in SomeRanges(0) |->
                    {Op("int", Some(r[1]), Some(IntAdd(r[1], N(r[2]))), e, IntAdd(r[1], N(o)), FALSE) : e \in BOOLEAN, o \in OffsetsIn(r[2])}]
IntRefused(z) == [r \in SomeRanges(0) |->
                    {Op("int", Some(r[1]), Some(IntAdd(r[1], N(r[2]))), e, x, FALSE) : e \in BOOLEAN, x \in Outside(r[1], r[2])}]
EdgeNats == UNION {Near(Pow2(k)) : k \in Exps} \cup {<<>>}
EdgeInts(z) == {x \in {Mk(neg, a) : neg \in BOOLEAN, a \in EdgeNats} \cup {I128Max, I128Min} : FitsI128(x)}
IntFree(z) == [u \in {None, Some(I(7))} |-> {Op("int", None, u, e, x, FALSE) : e \in BOOLEAN, x \in EdgeInts(0)}]
IntSemi(z) == [l \in Lows |-> {o \in {Op("int", Some(l), None, e, x, FALSE) : e \in BOOLEAN, x \in EdgeInts(0)} : Admits(o)}]
IntSemi2(z) == [l \in {I(0), I(-128), I(255), I128Min} |->
                  {o \in {Op("int", Some(l), None, e, IntAdd(l, N(a)), FALSE) : e \in BOOLEAN, a \in {b \in EdgeNats : NatLE(b, I128Max.m)}} : FitsI128(o.v)}]
IntSemiRefused(z) == [l \in Lows |-> {o \in {Op("int", Some(l), None, FALSE, x, FALSE) : x \in EdgeInts(0)} : ~Admits(o)}]
Extended == {Op("int", l, u, TRUE, I(v), TRUE) : l \in {None, Some(I(0))}, u \in {None, Some(I(9))}, v \in {3, 20, -5}}
IntOps(z) == <<IntBounded(0), IntFree(0), IntSemi(0), IntSemi2(0)>>

(***************************************************************************)
(* Sizes and lengths                                                       *)
(***************************************************************************)
SZ(a, b) == <<Some(I(a)), Some(I(b))>>
Sizes == {<<None, None>>, <<None, Some(I(5))>>, <<Some(I(3)), None>>, <<Some(I(0)), None>>,
          SZ(0, 0), SZ(1, 1), SZ(2, 2), SZ(3, 3), SZ(8, 8), SZ(15, 15), SZ(16, 16), SZ(17, 17), SZ(20, 20), SZ(255, 255),
          SZ(0, 1), SZ(0, 2), SZ(1, 2), SZ(0, 3), SZ(1, 3), SZ(2, 4), SZ(1, 8), SZ(1, 16), SZ(0, 255), SZ(0, 256), SZ(1, 256), SZ(0, 254),
          SZ(1, 160), SZ(3, 65535), SZ(0, 65535), SZ(1, 65536), SZ(65536, 65536), SZ(0, 100000), SZ(126, 129)}
SizeLens(s) == LET c == {0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 20, 127, 128} \cup
                        (IF Has(s[1]) THEN {IntSmall(Get(s[1])) - 1, IntSmall(Get(s[1])), IntSmall(Get(s[1])) + 1} ELSE {}) \cup
                        (IF Has(s[2]) THEN {IntSmall(Get(s[2])) - 1, IntSmall(Get(s[2])), IntSmall(Get(s[2])) + 1} ELSE {}) \cup
                        (IF Deep THEN 0..34 \cup 250..260 ELSE {})
               IN  {n \in c : n >= 0 /\ n <= (IF Deep THEN 300 ELSE 257)}
Pattern(n, k) == [i \in 1..n |-> ((((i % 1000) * (i % 1000)) + (i \div 3) + k) % 7) % 2]
Octets(n, k) == [i \in 1..n |-> (i * 37 + k * 101 + 129) % 256]
Chars(n, k) == [i \in 1..n |-> 32 + ((i * 7 + k * 13) % 95)]
SizedN(op, F(_, _)) ==      \* two patterns for every length
  [s \in Sizes |-> {Op(op, s[1], s[2], e, F(n, k), FALSE) : e \in BOOLEAN, k \in {0, 1}, n \in SizeLens(s)}]
BitOps(z) == SizedN("bit", Pattern)
OctOps(z) == SizedN("oct", Octets)
StringOps(z) == <<BitOps(0), OctOps(0)>>
VisOps(z) == SizedN("vis", Chars)
PrtOps(z) == SizedN("prt", Chars)
Utf8Texts == {<<>>, <<65>>, <<194, 128>>, <<195, 169, 65>>, <<223, 191>>, <<224, 160, 128>>, <<226, 130, 172>>, <<237, 159, 191>>, <<239, 191, 191>>,
              <<240, 144, 128, 128>>, <<240, 159, 152, 128, 65>>, <<244, 143, 191, 191>>, <<65, 195, 169, 226, 130, 172>>,
              Chars(5, 1), Chars(127, 1), Chars(128, 1), Chars(130, 2)}
UtfOps(z) == [s \in {<<None, None>>, SZ(1, 1), SZ(1, 3), SZ(2, 2), SZ(1, 150), SZ(0, 130), <<Some(I(2)), None>>} |-> {Op("utf", s[1], s[2], e, t, FALSE) : e \in BOOLEAN, t \in Utf8Texts}]
CharOps(z) == <<VisOps(0), PrtOps(0), UtfOps(0)>>

Lengths == {0, 1, 2, 3, 4, 5, 7, 8, 62, 63, 64, 65, 66, 126, 127, 128, 129, 254, 255, 256, 257, 258, 1000, 16382, 16383, 16384, 16385, 32768, 65534, 65535, 65536, 65537, 70000, 100000, 100001}
             \cup (IF Deep THEN 0..300 ELSE {})
LenOps(z) == <<[s \in Sizes |-> {Op("len", s[1], s[2], FALSE, n, FALSE) : n \in Lengths}],
                One({Op("nslen", None, None, FALSE, n, FALSE) : n \in Lengths})>>

(***************************************************************************)
(* Indices, preambles                                                      *)
(***************************************************************************)
Tops == IF Deep THEN 0..300 \cup {65534, 65535, 65536, 70000} ELSE {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 200, 253, 254, 255, 256, 65535, 65536}
IndexVals(t) == {0, 1, t \div 2, t - 1, t, t + 1, -1, 64, 256, t + 256}
IdxOps(z) == [t \in Tops |-> {Op(op, Some(I(0)), Some(I(t)), e, I(v), x) : op \in {"idx", "enum"}, e \in BOOLEAN, x \in BOOLEAN, v \in IndexVals(t)}]
AllBits(k) == [1..k -> {0, 1}]
HdrOps(z) == [k \in 0..(IF Deep THEN 8 ELSE 5) |-> {Op("hdr", None, None, e, bm, x) : e \in BOOLEAN, x \in BOOLEAN, bm \in AllBits(k)}]
HdrOps2(z) == One({Op("hdr", None, None, e, Pattern(k, j), FALSE) : e \in BOOLEAN, k \in {8, 9, 16, 17, 31, 63, 64, 65, 70}, j \in 0..2})
BoolOps(z) == {Op("bool", None, None, FALSE, x, FALSE) : x \in BOOLEAN}
SmallOps(z) == <<IdxOps(0), HdrOps(0), HdrOps2(0), One(BoolOps(0))>>

(***************************************************************************)
(* Refusals                                                                *)
(***************************************************************************)
LongOps(z) == {Op("oct", s[1], s[2], FALSE, Octets(n, 1), FALSE) : s \in {<<None, None>>, SZ(0, 65535)}, n \in {16383, 16384}}
             \cup {Op("bit", s[1], s[2], FALSE, Pattern(n, 1), FALSE) : s \in {<<None, None>>, SZ(0, 65535)}, n \in {16383, 16384}}
             \cup {Op(op, None, None, FALSE, Chars(n, 1), FALSE) : op \in {"vis", "utf", "prt"}, n \in {16383, 16384, 20000}}
ExtendedOps(z) == Extended \cup {Op("bit", None, None, TRUE, Pattern(5, 0), TRUE), Op("oct", SZ(1, 2)[1], SZ(1, 2)[2], TRUE, Octets(3, 0), TRUE),
                Op("vis", None, None, TRUE, Chars(5, 0), TRUE), Op("prt", SZ(1, 2)[1], SZ(1, 2)[2], TRUE, Chars(1, 0), TRUE),
                Op("utf", None, None, TRUE, Chars(5, 0), TRUE)}
\* more values than the library can count
WideOps(z) == {Op("int", Some(l), Some(u), e, x, FALSE) : e \in BOOLEAN, l \in {I128Min, Mk(TRUE, Pow2(126))}, u \in {I128Max, IntSub(I128Max, I(1)), Mk(FALSE, Pow2(126))}, x \in {I(0), I(-1), I128Min, I128Max}}
Refused(f) == [k \in DOMAIN f |-> {o \in f[k] : ~Admits(o)}]
RefuseOps(z) == <<Refused(IntRefused(0)), Refused(IntSemiRefused(0)), Refused(LenOps(0)[1]), Refused(LenOps(0)[2]), Refused(IdxOps(0)),
                   Refused(BitOps(0)), Refused(OctOps(0)), Refused(VisOps(0)), Refused(PrtOps(0)), Refused(UtfOps(0)), One(ExtendedOps(0)), One(LongOps(0)), One(WideOps(0))>>

(***************************************************************************)
(* Mixtures                                                                *)
(***************************************************************************)
MixBase(z) ==
  <<{Op("bool", None, None, FALSE, TRUE, FALSE)},
   {Op("int", Some(I(0)), Some(I(6)), FALSE, I(5), FALSE)},
   {Op("int", Some(I(0)), Some(I(255)), FALSE, I(130), FALSE)},
   {Op("int", Some(I(-5)), Some(I(1000)), TRUE, I(700), FALSE)},
   {Op("int", Some(I(0)), Some(N(Pow2(32))), FALSE, I(258), FALSE)},
   {Op("int", None, None, FALSE, I(-129), FALSE)},
   {Op("int", Some(I(1)), None, FALSE, I(256), FALSE)},
   {Op("enum", Some(I(0)), Some(I(2)), TRUE, I(1), FALSE)},
   {Op("hdr", None, None, TRUE, <<1, 0, 1>>, FALSE)},
   {Op("bit", Some(I(5)), Some(I(5)), FALSE, <<1, 0, 0, 1, 1>>, FALSE)},
   {Op("bit", Some(I(1)), Some(I(20)), FALSE, <<1, 1, 0>>, FALSE)},
   {Op("bit", None, None, FALSE, <<>>, FALSE)},
   {Op("oct", Some(I(2)), Some(I(2)), FALSE, <<255, 1>>, FALSE)},
   {Op("oct", Some(I(3)), Some(I(3)), TRUE, <<1, 2, 255>>, FALSE)},
   {Op("oct", Some(I(0)), Some(I(3)), FALSE, <<129>>, FALSE)},
   {Op("oct", None, None, FALSE, <<>>, FALSE)},
   {Op("vis", Some(I(1)), Some(I(2)), FALSE, <<65, 66>>, FALSE)},
   {Op("utf", None, None, FALSE, <<195, 169>>, FALSE)},
   {Op("nslen", None, None, FALSE, 3, FALSE)},
   {Op("app", None, None, FALSE, <<1, 0, 1>>, FALSE)},
   {Op("app", None, None, FALSE, <<1, 1, 1, 1, 1, 1, 1, 1, 1>>, FALSE)}>>
MixOps(z) == [i \in DOMAIN MixBase(0) |-> One(MixBase(0)[i])]

(***************************************************************************)
(* Wire strings                                                            *)
(***************************************************************************)
Alpha == {0, 1, 2, 3, 64, 127, 128, 129, 130, 191, 192, 193, 195, 196, 197, 254, 255}
Beta == {0, 1, 3, 128, 129, 193, 255}
ShortWires(z) == <<Strings(Alpha, 0), Strings(Alpha, 1), Strings(Alpha, 2), IF Deep THEN Strings(Alpha, 3) ELSE Strings(Beta, 3)>>
\* Longer ones: a head and a filler.
Heads(z) == UNION {Strings({0, 2, 16, 17, 32, 128, 129, 130, 136, 144, 208, 224, 240, 255}, k) : k \in 1..2}
LongWires(z) == <<{h \o [i \in 1..n |-> f] : h \in Heads(0), n \in (IF Deep THEN {4, 15, 16, 17, 18, 33} ELSE {17}), f \in {0, 127, 255}}>>
\* Types, in groups whose values are of one kind.
BasicTypes(z) == <<
  {Op("int", l, u, e, NoV, FALSE) : e \in BOOLEAN, l \in {None}, u \in {None}} \cup
  {Op("int", Some(l), None, e, NoV, FALSE) : e \in BOOLEAN, l \in {I(0), I(-129), I128Max, I128Min}} \cup
  {Op("int", Some(I(0)), Some(N(u)), e, NoV, FALSE) : e \in BOOLEAN, u \in {<<>>, <<1>>, <<2>>, <<6>>, <<127>>, <<200>>, <<254>>, <<255>>, <<1, 0>>, <<234, 96>>, <<255, 255>>, <<1, 0, 0>>, <<1, 0, 0, 0>>, NatSub(Pow2(32), <<1>>), Pow2(40), NatSub(Pow2(64), <<1>>), MaxSpan}} \cup
  {Op("int", Some(I(-70000)), Some(I(-1)), FALSE, NoV, FALSE), Op("int", Some(I128Min), Some(I(-2)), FALSE, NoV, FALSE), Op("int", Some(I128Min), Some(I(-1)), FALSE, NoV, FALSE),
   Op("int", Some(I128Min), Some(I128Max), FALSE, NoV, FALSE)} \cup
  {Op(op, Some(I(0)), Some(I(u)), e, NoV, FALSE) : op \in {"enum", "idx"}, e \in BOOLEAN, u \in {0, 1, 2, 4, 200, 255, 300}},
  {Op("bool", None, None, FALSE, TRUE, FALSE)},
  {Op("align", None, None, FALSE, 0, FALSE), Op("nslen", None, None, FALSE, 0, FALSE)} \cup
  {Op("len", s[1], s[2], FALSE, 0, FALSE) : s \in {<<None, None>>, SZ(0, 1), SZ(2, 7), SZ(1, 256), SZ(5, 5), SZ(0, 65535), SZ(1, 65536), SZ(10, 9000)}},
  {Op("hdr", None, None, e, Zeros(k), FALSE) : e \in BOOLEAN, k \in {0, 1, 3, 9, 20}} \cup
  {Op(op, s[1], s[2], e, <<>>, FALSE) : op \in {"bit", "oct", "vis", "utf"}, e \in BOOLEAN,
     s \in {<<None, None>>, SZ(0, 0), SZ(1, 1), SZ(2, 2), SZ(3, 3), SZ(0, 1), SZ(0, 2), SZ(1, 4), SZ(0, 255), SZ(0, 65535), SZ(1, 65536), <<Some(I(2)), None>>}} \cup
  {Op("prt", s[1], s[2], FALSE, <<>>, FALSE) : s \in {<<None, None>>, SZ(1, 2)}} >>

\* Contents of strings, UTF-8 or not, behind a length octet.
TextAlpha == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 237, 239, 240, 244, 245, 255}
TextWires(z) == <<{<<1>> \o t : t \in Strings(TextAlpha, 1)}, {<<2>> \o t : t \in Strings(TextAlpha, 2)},
                  {<<3>> \o t : t \in {u \in Strings({65, 128, 143, 144, 159, 160, 191, 224, 225, 237, 239, 240, 244}, 3) : u[1] >= 224}},
                  {<<4, a, b, c, d>> : a \in {240, 241, 243, 244, 245}, b \in {127, 128, 143, 144, 191}, c \in {128, 191, 65}, d \in {128, 191, 192}}>>
TextTypes(z) == <<{Op(op, None, None, FALSE, <<>>, FALSE) : op \in {"vis", "prt", "utf"}}>>

\* Fragmented strings: parts of 16K to 64K and a last part.
Frag(parts, F(_, _), w) ==     \* parts: lengths; the octets on the wire, w bits per item
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(parts) THEN <<>>
               ELSE LET n == parts[i]
                        h == IF n >= K16 /\ i < Len(parts) THEN <<192 + (n \div K16)>> ELSE IF n < 128 THEN <<n>> ELSE <<128 + (n \div 256), n % 256>>
                    IN  h \o (IF w = 8 THEN F(n, i) ELSE ToOctets(F(n, i))) \o Go(i + 1)
  IN  Go(1)
FragParts == {<<K16, 0>>, <<K16, 1>>, <<2 * K16, 130>>, <<3 * K16, K16, 5>>} \cup (IF Deep THEN {<<4 * K16, 3 * K16, 127>>, <<4 * K16, 4 * K16, 0>>, <<K16, K16, 2 * K16, 16383>>} ELSE {<<4 * K16, 16383>>})
\* truncated and malformed ones
FragWires(z) == <<{Frag(pp, Octets, 8) : pp \in FragParts} \cup {Frag(<<2 * K16, 1000>>, Chars, 8), Frag(<<K16, 3>>, Chars, 8)}
               \cup {<<193>> \o Octets(K16, 1), <<193>> \o Octets(K16 - 1, 1), <<192, 0>>, <<197>> \o Octets(10, 1), <<193>> \o Octets(K16, 1) \o <<2, 0>>}>>
FragBitWires(z) == <<{Frag(pp, Pattern, 1) : pp \in {<<K16, 0>>, <<2 * K16, 77>>, <<4 * K16, K16, 9>>}}
                  \cup {<<193>> \o ToOctets(Pattern(K16, 1))}>>
FragTypes(z) == <<{Op("oct", None, None, FALSE, <<>>, FALSE), Op("oct", Some(I(1)), Some(I(65536)), FALSE, <<>>, FALSE)}>>
FragTextTypes(z) == <<{Op(op, s[1], s[2], FALSE, <<>>, FALSE) : op \in {"vis", "utf"}, s \in {<<None, None>>}}>>
FragBitTypes(z) == <<{Op("bit", None, None, FALSE, <<>>, FALSE), Op("bit", None, Some(I(70000)), FALSE, <<>>, FALSE)}>>
FragTextWires(z) == <<{Frag(<<2 * K16, 1000>>, Chars, 8), Frag(<<K16, 3>>, Chars, 8), Frag(<<K16, 0>>, Chars, 8)}>>

IndexTypes(z) == <<{Op(op, Some(I(0)), Some(I(u)), e, NoV, FALSE) : op \in {"enum", "idx"}, e \in BOOLEAN, u \in {0, 1, 2, 4, 9, 64, 200, 254, 255, 256, 300}},
                   {Op("hdr", None, None, e, Zeros(k), FALSE) : e \in BOOLEAN, k \in {0, 1, 2, 3, 9, 17}}, {Op("bool", None, None, FALSE, TRUE, FALSE)}>>
IndexWires(z) == <<Strings(0..255, 1), Strings(Alpha, 2), Strings(Beta, 3), {<<192, k>> \o x : k \in 0..3, x \in Strings({0, 1, 127, 128, 255}, 2)}>>
NoOps(z) == <<>>
NoTypes(z) == <<>>
NoWires(z) == <<>>
Zero == {0}
Aligned == {0}
SomePrefixes == IF Deep THEN 0..7 ELSE {0, 1, 6}
AllPrefixes == 0..7
OnePrefix == {1}
AllFlips == 0..40
TwoPrefixes == IF Deep THEN 0..7 ELSE {0, 3}
OneCut == {1}
SomeCuts == {0, 1, 2, 3}
SomeFlips == 0..(IF Deep THEN 40 ELSE 16)
DamageCuts == {0, 1, 2}
DamageFlips == IF Deep THEN 0..24 ELSE {0, 1, 2, 3, 5, 8, 9, 16}
=============================================================================
