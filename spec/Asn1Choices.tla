----------------------------- MODULE Asn1Choices -----------------------------
(***************************************************************************)
(* CHOICEs, built alternative by alternative, additions alone and in       *)
(* groups.                                                                 *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS Most, Contexts

VARIABLES s, g, shift, Context
vars == <<s, g, shift, Context>>

Type1 == <<Bool, Integer(<<Just(Rng(I(0), I(7)))>>), Ref("R"), Oct(<<Size(Just(V(I(2))))>>), Null, Seq_(<<C("x", Bit(<<>>), "O")>>),
           Choice(<<C("p", Bool, ""), C("q", Integer(<<>>), "")>>), Of(<<>>, Ref("R")), Enum(<<It("red"), It("blue")>>, FALSE, <<>>)>>
AlternativeNames == <<"a", "b-c", "type", "dE", "e1", "f", "g", "h">>
Count == Len(s.alts) + Len(s.adds)
New(grp) == [n |-> AlternativeNames[Count + 1], ty |-> Type1[((Count + shift) % Len(Type1)) + 1], o |-> "", g |-> grp]

Init == s = Choice(<<>>) /\ g = 0 /\ shift \in 0..(Len(Type1) - 1) /\ Context \in Contexts
Room == Count < Most
Root == Room /\ ~s.x /\ s' = [s EXCEPT !.alts = Append(@, New(0))] /\ UNCHANGED g
Mark == ~s.x /\ (s.alts # <<>> \/ shift = 0) /\ s' = [s EXCEPT !.x = TRUE] /\ UNCHANGED g
Addition == Room /\ s.x /\ (\/ s' = [s EXCEPT !.adds = Append(@, New(0))] /\ UNCHANGED g
                            \/ g' = g + 1 /\ s' = [s EXCEPT !.adds = Append(@, New(g'))]
                            \/ s.adds # <<>> /\ Last(s.adds).g = g /\ g > 0 /\ s' = [s EXCEPT !.adds = Append(@, New(g))] /\ UNCHANGED g)
Twice == /\ Count >= 2 /\ s.alts # <<>> /\ g < 100
         /\ s' = IF s.adds # <<>> THEN [s EXCEPT !.adds[Len(s.adds)].n = "a"] ELSE [s EXCEPT !.alts[Len(s.alts)].n = "a"]
         /\ g' = 100
Next == ((g < 100 /\ (Root \/ Mark \/ Addition)) \/ Twice) /\ UNCHANGED <<shift, Context>>
Spec == Init /\ [][Next]_vars

R0 == Def("R", Integer(<<Just(Rng(I(0), I(9)))>>))
Modules ==
  CASE Context = "def"    -> One(<<Def("T", s), R0>>)
    [] Context = "ref"    -> One(<<R0, Def("T", Ref("S-t")), Def("S-t", s)>>)
    [] Context = "inner"  -> One(<<Def("T", Choice(<<C("m", Bool, ""), C("n", s, "")>>)), R0>>)
    [] Context = "seq"    -> One(<<R0, Def("T", Seq_(<<C("l", s, "O")>>)), Def("U", Of(<<>>, s))>>)
    [] Context = "param"  -> One(<<R0, PDef("P", <<[n |-> "X", g |-> "type"]>>, Choice(<<C("v", Ref("X"), ""), C("w", s, "")>>)), Def("T", Inst("P", <<[a |-> "type", ty |-> Ref("R")]>>))>>)
Told == Tell(Modules)
Mirrors == LET r == Type(Env(Modules), s, Fuel)
           IN  IF Failed(r) THEN s.alts = <<>> \/ ~Distinct(Map(s.alts \o s.adds, LAMBDA c : c.n))
               ELSE r.x.ext = s.x /\ Len(r.x.root) = Len(s.alts) /\ Len(r.x.adds) = Len(s.adds)
=============================================================================
