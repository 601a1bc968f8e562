------------------------------ MODULE Asn1Enums ------------------------------
(***************************************************************************)
(* ENUMERATEDs, built item by item, with and without numbers.              *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS Numbers,    \* a sequence of the numbers that items have
          Most, Contexts

VARIABLES s, Context
vars == <<s, Context>>

ItemNames == <<"a", "b-c", "cD", "d1", "e", "f", "g", "h">>
Count == Len(s.items) + Len(s.adds)
Name == ItemNames[Count + 1]
Items == {It(Name)} \cup {ItN(Name, Numbers[i]) : i \in DOMAIN Numbers}

Init == s = Enum(<<>>, FALSE, <<>>) /\ Context \in Contexts
Root == ~s.x /\ Count < Most /\ \E i \in Items : s' = [s EXCEPT !.items = Append(@, i)]
Mark == ~s.x /\ s' = [s EXCEPT !.x = TRUE]
Addition == s.x /\ Count < Most /\ \E i \in Items : s' = [s EXCEPT !.adds = Append(@, i)]
Twice == Count = 2 /\ Len(s.items) = 2 /\ s' = [s EXCEPT !.items[2].n = "a"]
Next == (Root \/ Mark \/ Addition \/ Twice) /\ UNCHANGED Context
Spec == Init /\ [][Next]_vars

Prelude == <<Val("two", I(2)), Val("neg", I(-1)), Val("four", R("vier")), Val("vier", I(4))>>
Modules ==
  CASE Context = "def"  -> One(Prelude \o <<Def("T", s)>>)
    [] Context = "comp" -> One(<<Def("T", Seq_(<<C("l", s, "O"), C("m", Of(<<>>, s), "")>>))>> \o Prelude)
    [] Context = "ref"  -> One(<<Def("T", Ref("S")), Def("S", s)>> \o Prelude)
    [] Context = "param" -> One(<<PDef("P", <<[n |-> "two", g |-> "value"]>>, Seq_(<<C("a", s, "")>>)), Def("T", Inst("P", <<[a |-> "value", val |-> R("vier")]>>))>> \o Prelude)
Told == Tell(Modules)

\* The indices follow the numbers, and the items without one have the least numbers that are left, in order.
Numbered ==
  LET r == EnumType(Env(Modules), s)
  IN  Failed(r) \/
      LET at(n) == CHOOSE i \in DOMAIN r.x.names : r.x.names[i] = n
          open == {i \in DOMAIN s.items : s.items[i].num = <<>>}
      IN  /\ Len(r.x.names) = Len(s.items)
          /\ \A i, j \in open : i < j => at(s.items[i].n) < at(s.items[j].n)
          /\ \A i, j \in DOMAIN s.items \ open : Num(Env(Modules), s.items[i].num[1]).x < Num(Env(Modules), s.items[j].num[1]).x => at(s.items[i].n) < at(s.items[j].n)

Few == <<I(0), I(1), I(3), R("neg")>>
Many == <<I(0), I(1), I(2), I(5), I(-7), R("two"), R("four"), R("nobody"), I(P31), I(M63)>>
=============================================================================
