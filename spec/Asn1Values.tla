------------------------------ MODULE Asn1Values ------------------------------
(***************************************************************************)
(* Values, written one by one, with literals and references to each other, *)
(* of several types; and what they are used for.                           *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS Most, Literals, Kinds, Places

VARIABLES vs, use
vars == <<vs, use>>

ValueNames == <<"a", "b-2", "cD", "e", "f">>
VType(k) == CASE k = "int" -> Integer(<<>>) [] k = "bool" -> Bool [] k = "ref" -> Ref("R") [] k = "chain" -> Ref("Q")
              [] k = "boolref" -> Ref("B") [] k = "enum" -> Ref("E") [] k = "cons" -> Integer(<<Just(Rng(I(0), I(3)))>>) [] k = "nobody" -> Ref("Nobody")
              [] k = "refc" -> RefC("R", <<Just(Rng(I(0), I(5)))>>)
Init == vs = <<>> /\ use = ""
Write == /\ use = "" /\ Len(vs) < Most
         /\ \E k \in Kinds : \E w \in DOMAIN Literals : vs' = Append(vs, [Val(ValueNames[Len(vs) + 1], Literals[w]) EXCEPT !.ty = VType(k)])
         /\ UNCHANGED use
Use == use = "" /\ vs # <<>> /\ use' \in Places /\ UNCHANGED vs
Next == Write \/ Use
Spec == Init /\ [][Next]_vars

v == R(ValueNames[1])
w == R(ValueNames[IF Len(vs) < 2 THEN 1 ELSE 2])
Used ==
  CASE use = "none"   -> <<>>
    [] use = "upper"  -> <<Def("T", Integer(<<Just(Rng(I(-9), v))>>))>>
    [] use = "lower"  -> <<Def("T", Integer(<<Just(Rng(v, I(P63 - 1)))>>))>>
    [] use = "both"   -> <<Def("T", Integer(<<Con(<<<<V(v)>>, <<V(w)>>>>)>>))>>
    [] use = "size"   -> <<Def("T", Oct(<<Size(Just(Rng(I(0), v)))>>)), Def("U", Of(<<Size(Just(V(v)))>>, Bool)), Def("W", Str("VisibleString", <<Size(Ext(Just(V(v))))>>))>>
    [] use = "item"   -> <<Def("T", Enum(<<It("x"), ItN("y", v), It("z")>>, TRUE, <<ItN("zz", w)>>))>>
    [] use = "param"  -> <<Def("T", Inst("P", <<[a |-> "value", val |-> v]>>)), PDef("P", <<[n |-> "cD", g |-> "value"]>>, Seq_(<<C("x", Integer(<<Just(Rng(I(-9), R("cD")))>>), ""), C("y", Oct(<<Size(Just(Rng(w, R("cD"))))>>), "O")>>))>>
    [] use = "inner"  -> <<Def("T", Seq_(<<C("x", Choice(<<C("p", Integer(<<Just(Open(v, FALSE, I(200), FALSE))>>), ""), C("q", Bit(<<Size(Just(V(v)))>>), "")>>), "O")>>))>>
Prelude == <<Def("R", Integer(<<Just(Rng(I(0), I(7)))>>)), Def("Q", Ref("R")), Def("B", Bool), Def("E", Enum(<<It("red"), It("blue")>>, TRUE, <<It("grey")>>))>>
Apart == Len(vs) = 2 /\ use \in {"upper", "both"}
Modules == IF Apart
           THEN \* the values in a module of their own
                <<Module("Uses", <<[names |-> SetToSeq(Uses(Used[1])), from |-> "Values"]>>, Used),
                  Module("Values", <<>>, vs \o Prelude)>>
           ELSE One(Prelude \o Used \o vs)
Told == use # "" => Tell(Modules)

Some1 == <<I(3), [b |-> TRUE], R(ValueNames[1]), R(ValueNames[2]), [en |-> "blue"], I(-2)>>
Every == Some1 \o <<I(0), R(ValueNames[3]), R("nobody"), [b |-> FALSE], [en |-> "grey"], [en |-> "black"], I(9), I(P31), I(P63 - 1), I(P63), I(P64 - 1), I(P64), I(M63), I(P126), I(970000000), I(-970000000)>>
Numbers == <<I(3), I(-2), R(ValueNames[1]), R(ValueNames[2]), R(ValueNames[3]), R(ValueNames[4])>>
=============================================================================
