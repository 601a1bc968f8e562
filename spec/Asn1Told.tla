------------------------------ MODULE Asn1Told ------------------------------
(* What a family of modules prints for each of them.                       *)
EXTENDS Asn1, Json
Tell(mods) == LET r == Compile(mods) IN PrintT("C " \o ToJson([mods |-> mods, v |-> r.v, x |-> r.x, any |-> "any" \in DOMAIN r]))
Def(n, ty) == [d |-> "type", n |-> n, params |-> <<>>, ty |-> ty]
PDef(n, params, ty) == [d |-> "type", n |-> n, params |-> params, ty |-> ty]
Val(n, w) == [d |-> "value", n |-> n, ty |-> [k |-> "int", cons |-> <<>>], val |-> w]
Module(n, imports, defs) == [n |-> n, imports |-> imports, defs |-> defs]
One(defs) == <<Module("M", <<>>, defs)>>
I(n) == [i |-> n]
R(n) == [r |-> n]
V(w) == [e |-> "v", val |-> w]
Rng(lo, hi) == [e |-> "r", lo |-> lo, loi |-> TRUE, hi |-> hi, hii |-> TRUE]
Open(lo, loi, hi, hii) == [e |-> "r", lo |-> lo, loi |-> loi, hi |-> hi, hii |-> hii]
Con(u) == [u |-> u, x |-> FALSE, a |-> <<>>]
Just(e) == Con(<<<<e>>>>)
Ext(c) == [c EXCEPT !.x = TRUE]
Integer(cons) == [k |-> "int", cons |-> cons]
Bool == [k |-> "bool"]
Null == [k |-> "null"]
Bit(cons) == [k |-> "bit", cons |-> cons]
Oct(cons) == [k |-> "oct", cons |-> cons]
Str(kind, cons) == [k |-> "str", kind |-> kind, cons |-> cons]
Of(cons, ty) == [k |-> "of", cons |-> cons, of |-> ty]
Enum(items, x, adds) == [k |-> "enum", items |-> items, x |-> x, adds |-> adds]
It(n) == [n |-> n, num |-> <<>>]
ItN(n, w) == [n |-> n, num |-> <<w>>]
Ref(n) == [k |-> "ref", n |-> n, args |-> <<>>, cons |-> <<>>]
RefC(n, cons) == [k |-> "ref", n |-> n, args |-> <<>>, cons |-> cons]
Inst(n, args) == [k |-> "ref", n |-> n, args |-> args, cons |-> <<>>]
C(n, ty, o) == [n |-> n, ty |-> ty, o |-> o, g |-> 0]
Seq_(comps) == [k |-> "seq", comps |-> comps, x |-> FALSE, adds |-> <<>>, mm |-> FALSE, more |-> <<>>]
Choice(alts) == [k |-> "choice", alts |-> alts, x |-> FALSE, adds |-> <<>>]
Size(c) == Just([e |-> "s", c |-> c])
=============================================================================
