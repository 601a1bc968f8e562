---------------------------- MODULE Asn1Sequences ----------------------------
(***************************************************************************)
(* SEQUENCEs, built component by component: root, additions alone and in   *)
(* groups, a second marker with more of the root behind it; each component *)
(* mandatory, OPTIONAL or with a DEFAULT.                                  *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS Most, Contexts

VARIABLES s, g, shift, Context
vars == <<s, g, shift, Context>>

Type1 == <<
  [t |-> Bool, dv |-> "TRUE"],
  [t |-> Integer(<<Just(Rng(I(0), I(7)))>>), dv |-> "3"],
  [t |-> Ref("R"), dv |-> "5"],
  [t |-> Oct(<<Size(Just(V(I(2))))>>), dv |-> "'0102'H"],
  [t |-> Enum(<<It("red"), It("blue")>>, TRUE, <<>>), dv |-> "blue"],
  [t |-> Seq_(<<C("x", Bit(<<>>), "O"), C("y", Null, "")>>), dv |-> ""],
  [t |-> Choice(<<C("p", Bool, ""), C("q", Integer(<<>>), "")>>), dv |-> ""],
  [t |-> Of(<<Size(Just(Rng(I(0), I(3))))>>, Ref("R")), dv |-> ""],
  [t |-> Str("UTF8String", <<>>), dv |-> "\"yes\""],
  [t |-> RefC("R", <<Just(V(I(2)))>>), dv |-> "2"] >>
ComponentNames == <<"a", "b-c", "type", "dE", "e1", "f", "g", "h">>
Count == Len(s.comps) + Len(s.adds) + Len(s.more)
New(o, grp) == LET t == Type1[((Count + shift) % Len(Type1)) + 1]
               IN  [n |-> ComponentNames[Count + 1], ty |-> t.t, o |-> IF o = "D" /\ t.dv = "" THEN "O" ELSE o, g |-> grp, dv |-> t.dv]
Kinds == {"", "O", "D"}

Init == s = Seq_(<<>>) /\ g = 0 /\ shift \in 0..(Len(Type1) - 1) /\ Context \in Contexts
Room == Count < Most
Root == Room /\ ~s.x /\ \E o \in Kinds : s' = [s EXCEPT !.comps = Append(@, New(o, 0))] /\ UNCHANGED g
Mark == ~s.x /\ s' = [s EXCEPT !.x = TRUE] /\ UNCHANGED g
Addition == Room /\ s.x /\ ~s.mm /\ \E o \in Kinds :
              \/ s' = [s EXCEPT !.adds = Append(@, New(o, 0))] /\ UNCHANGED g
              \/ g' = g + 1 /\ s' = [s EXCEPT !.adds = Append(@, New(o, g'))]
              \/ s.adds # <<>> /\ Last(s.adds).g = g /\ g > 0 /\ s' = [s EXCEPT !.adds = Append(@, New(o, g))] /\ UNCHANGED g
Again == s.x /\ ~s.mm /\ s' = [s EXCEPT !.mm = TRUE] /\ UNCHANGED g
More == Room /\ s.mm /\ \E o \in Kinds : s' = [s EXCEPT !.more = Append(@, New(o, 0))] /\ UNCHANGED g
\* Two components of one name.
Twice == /\ Count >= 2 /\ Len(s.comps) >= 1 /\ ~s.mm
         /\ s' = IF s.adds # <<>> THEN [s EXCEPT !.adds[Len(s.adds)].n = "a", !.mm = TRUE] ELSE [s EXCEPT !.comps[Len(s.comps)].n = "a", !.x = TRUE, !.mm = TRUE]
         /\ UNCHANGED g
Next == (Root \/ Mark \/ Addition \/ Again \/ More \/ Twice) /\ UNCHANGED <<shift, Context>>
Spec == Init /\ [][Next]_vars

R0 == Def("R", Integer(<<Just(Rng(I(0), I(9)))>>))
Modules ==
  CASE Context = "def"    -> One(<<Def("T", s), R0>>)
    [] Context = "ref"    -> One(<<R0, Def("T", Ref("S-t")), Def("S-t", s)>>)
    [] Context = "inner"  -> One(<<Def("T", [Seq_(<<C("m", Bool, "O"), C("n", s, "O"), C("o", Null, "O")>>) EXCEPT !.x = TRUE, !.adds = <<C("z", s, "")>>]), R0>>)
    [] Context = "of"     -> One(<<R0, Def("T", Of(<<>>, s))>>)
    [] Context = "choice" -> One(<<Def("T", Choice(<<C("k", Bool, ""), C("l", s, "")>>)), R0>>)
    [] Context = "param"  -> One(<<R0, PDef("P", <<[n |-> "X", g |-> "type"]>>, Seq_(<<C("v", Ref("X"), "O"), C("w", s, "")>>)), Def("T", Inst("P", <<[a |-> "type", ty |-> Ref("R")]>>))>>)
    [] Context = "two"    -> <<Module("A", <<[names |-> <<"R">>, from |-> "B"]>>, <<Def("T", s)>>), Module("B", <<>>, <<R0>>)>>
Told == Tell(Modules)

\* What is in the generated structure: the root, in order, with consecutive indices of what may be absent.
Mirrors == LET r == Type(Env(Modules), s, Fuel)
           IN  Failed(r) \/ (/\ Len(r.x.comps) = Len(s.comps) + Len(s.more)
                             /\ r.x.ext = s.x
                             /\ \A i \in DOMAIN r.x.comps : r.x.comps[i].opt = ((s.comps \o s.more)[i].o # ""))
=============================================================================
