----------------------------- MODULE Asn1Objects -----------------------------
(***************************************************************************)
(* A class, objects of it, object sets that contain them, and SEQUENCEs    *)
(* whose components are constrained by a set.                              *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS Objects,     \* how many objects at most
          Elements,    \* how many elements of the sets at most
          Ids, Types, Extras,          \* what the objects may have
          Classes, Shapes

VARIABLES os, elems, others, mark, class, shape, phase
vars == <<os, elems, others, mark, class, shape, phase>>

Field(f, s, at) == [k |-> "field", cls |-> "KIND", f |-> f, set |-> s, at |-> at]
VField(f, ty, uniq, opt) == [f |-> f, k |-> "value", opt |-> opt, uniq |-> uniq, ty |-> <<ty>>, dty |-> <<>>]
TField(f, opt, dty) == [f |-> f, k |-> "type", opt |-> opt, uniq |-> FALSE, ty |-> <<>>, dty |-> dty]
Id == VField("id", Integer(<<Just(Rng(I(0), I(255)))>>), TRUE, "")
Crit == [VField("crit", Enum(<<It("reject"), It("ignore")>>, FALSE, <<>>), FALSE, "D") EXCEPT !.ty = <<Ref("Crit")>>] @@ [dv |-> "ignore"]
Words == <<[w |-> "ID", f |-> "id"], [w |-> "TYPE", f |-> "Type"], [w |-> "EXTRA", f |-> "Extra"]>>
Class(c) == [d |-> "class", n |-> "KIND"] @@
  CASE c = "full"   -> [fields |-> <<Id, TField("Type", "", <<>>), TField("Extra", "O", <<>>)>>, syntax |-> Words]
    [] c = "loose"  -> [fields |-> <<TField("Type", "O", <<>>), Id, TField("Extra", "O", <<>>)>>, syntax |-> Words]
    [] c = "dflt"   -> [fields |-> <<Id, TField("Type", "D", <<Ref("R")>>), TField("Extra", "O", <<>>)>>, syntax |-> Words]
    [] c = "crit"   -> [fields |-> <<Id, Crit, TField("Type", "", <<>>), TField("Extra", "O", <<>>)>>, syntax |-> Words]
    [] c = "bare"   -> [fields |-> <<Id, TField("Type", "O", <<>>), TField("Extra", "O", <<>>)>>, syntax |-> <<>>]

Type2(k) == CASE k = "bool" -> Bool [] k = "ref" -> Ref("R") [] k = "other" -> Ref("Other") [] k = "seq" -> Seq_(<<C("x", Bit(<<>>), "O")>>)
              [] k = "int" -> Integer(<<Just(Rng(I(0), I(3)))>>) [] k = "nobody" -> Ref("Nobody") [] k = "of" -> Of(<<>>, Ref("R"))
Id2(k) == CASE k = "1" -> I(1) [] k = "2" -> I(2) [] k = "200" -> I(200) [] k = "one" -> R("id-one") [] k = "two" -> R("id-two") [] k = "-1" -> I(-1)
Settings(i, t, x) == (IF i = "" THEN <<>> ELSE <<[f |-> "id", val |-> <<Id2(i)>>, ty |-> <<>>]>>)
                  \o (IF t = "" THEN <<>> ELSE <<[f |-> "Type", val |-> <<>>, ty |-> <<Type2(t)>>]>>)
                  \o (IF x = "" THEN <<>> ELSE <<[f |-> "Extra", val |-> <<>>, ty |-> <<Type2(x)>>]>>)
Name(i) == <<"first", "second-o", "third", "fourth", "fifth">>[i]

Init == os = <<>> /\ elems = <<>> /\ others = <<>> /\ mark = 0 /\ class \in Classes /\ shape \in Shapes /\ phase = "objects"
Object == phase = "objects" /\ Len(os) < Objects
          /\ \E i \in Ids, t \in Types, x \in Extras : os' = Append(os, Settings(i, t, x))
          /\ UNCHANGED <<elems, others, mark, phase>>
Turn == phase = "objects" /\ phase' = "set" /\ UNCHANGED <<os, elems, others, mark>>

Member == phase = "set" /\ Len(elems) < Elements
           /\ \/ \E e \in DOMAIN os : elems' = Append(elems, [r |-> Name(e)]) \/ elems' = Append(elems, [o |-> os[e]])
              \/ elems' = Append(elems, [s |-> "Others"])
           /\ UNCHANGED <<os, others, mark, phase>>
Other == phase = "set" /\ Len(others) < Elements - 1 /\ (\E e \in DOMAIN os : others' = Append(others, [r |-> Name(e)]))
         /\ UNCHANGED <<os, elems, mark, phase>>
\* mark = 1 + the number of elements before the marker
Mark == phase = "set" /\ mark = 0 /\ mark' = Len(elems) + 1 /\ UNCHANGED <<os, elems, others, phase>>
Tell1 == phase = "set" /\ (elems # <<>> \/ mark > 0) /\ phase' = "told" /\ UNCHANGED <<os, elems, others, mark>>
Next == (Object \/ Turn \/ Member \/ Other \/ Mark \/ Tell1) /\ UNCHANGED <<class, shape>>
Spec == Init /\ [][Next]_vars

KeyC(n, s) == C(n, Field("id", <<s>>, <<>>), "")
ValC(n, f, s, at, o) == C(n, Field(f, <<s>>, IF at = "" THEN <<>> ELSE <<at>>), o)
Shaped ==
  CASE shape = "plain"  -> <<Def("T", Seq_(<<KeyC("id", "Set"), ValC("val", "Type", "Set", "id", "")>>))>>
    [] shape = "opt"    -> <<Def("T", Seq_(<<C("n", Null, "O"), KeyC("id", "Set"), C("flag", Bool, "O"), ValC("val", "Type", "Set", "id", "O"), C("z", Ref("R"), "")>>))>>
    [] shape = "both"   -> <<Def("T", Seq_(<<KeyC("id", "Set"), ValC("val", "Type", "Set", "id", ""), ValC("more", "Extra", "Set", "id", "O")>>))>>
    [] shape = "extra"  -> <<Def("T", Of(<<Size(Just(Rng(I(0), I(9))))>>, Seq_(<<KeyC("id", "Set"), ValC("more", "Extra", "Set", "id", "")>>)))>>
    [] shape = "param"  -> <<Def("T", Inst("P", <<[a |-> "set", n |-> "Set"]>>)), PDef("P", <<[n |-> "Any", g |-> "set", gov |-> "KIND"]>>, Seq_(<<KeyC("id", "Any"), ValC("val", "Type", "Any", "id", "")>>))>>
    [] shape = "two"    -> <<Def("T", Seq_(<<KeyC("id", "Set"), ValC("val", "Type", "Set", "id", ""), KeyC("id2", "Set"), ValC("val2", "Extra", "Set", "id2", "O")>>))>>
    [] shape = "noat"   -> <<Def("T", Seq_(<<KeyC("id", "Set"), ValC("val", "Type", "Set", "", "")>>))>>
    [] shape = "badat"  -> <<Def("T", Seq_(<<KeyC("id", "Set"), ValC("val", "Type", "Set", "idx", "")>>))>>
    [] shape = "stale"  -> <<Def("T", Seq_(<<KeyC("id", "Set"), KeyC("id2", "Set"), ValC("val", "Type", "Set", "id", "")>>))>>
    [] shape = "sets"   -> <<Def("T", Seq_(<<KeyC("id", "Set"), ValC("val", "Type", "Others", "id", "")>>))>>
    [] shape = "free"   -> <<Def("T", Seq_(<<C("id", Field("id", <<>>, <<>>), ""), C("flag", Bool, "O")>>))>>
    [] shape = "crit"   -> <<Def("T", Seq_(<<KeyC("id", "Set"), C("crit", Field("crit", <<"Set">>, <<"id">>), ""), ValC("val", "Type", "Set", "id", "")>>))>>
    [] shape = "nofield" -> <<Def("T", Seq_(<<KeyC("id", "Set"), ValC("val", "Nothing", "Set", "id", "")>>))>>
    [] shape = "noset"  -> <<Def("T", Seq_(<<KeyC("id", "Sot"), ValC("val", "Type", "Sot", "id", "")>>))>>
    [] shape = "inadd"  -> <<Def("T", [Seq_(<<KeyC("id", "Set"), ValC("val", "Type", "Set", "id", "")>>) EXCEPT !.x = TRUE, !.adds = <<C("late", Bool, "O")>>])>>

ObjectDefs == [i \in DOMAIN os |-> [d |-> "object", n |-> Name(i), cls |-> "KIND", o |-> os[i]]]
SetDef(n, es, m) == [d |-> "set", n |-> n, cls |-> "KIND", elems |-> es, x |-> m > 0, at |-> IF m > 0 THEN m - 1 ELSE Len(es)]
NeedsOthers == (\E e \in Range(elems) : "s" \in DOMAIN e) \/ shape = "sets" \/ others # <<>>
Sets == <<SetDef("Set", elems, mark)>> \o (IF NeedsOthers THEN <<SetDef("Others", others, IF others = <<>> THEN 1 ELSE 0)>> ELSE <<>>)
Prelude == <<Def("R", Integer(<<Just(Rng(I(0), I(9)))>>)), Def("Other", Seq_(<<C("q", Bool, "")>>)), Val("id-one", I(1)), Val("id-two", I(2)),
             Def("Crit", Enum(<<It("reject"), It("ignore")>>, FALSE, <<>>))>>
Forward == Shaped \o Sets \o ObjectDefs \o <<Class(class)>> \o Prelude
Modules ==
  IF (Len(os) + Len(elems)) % 2 = 0 THEN One(Forward)
  ELSE \* objects, class and containers apart
       LET all == <<Shaped, Sets \o ObjectDefs, <<Class(class)>> \o Prelude>>
           names == [i \in 1..3 |-> {all[i][j].n : j \in DOMAIN all[i]}]
           needs == [i \in 1..3 |-> UNION {Uses(all[i][j]) : j \in DOMAIN all[i]} \ names[i]]
           from(i, o) == IF needs[i] \cap names[o] = {} \/ i = o THEN <<>> ELSE <<[names |-> SetToSeq(needs[i] \cap names[o]), from |-> <<"A", "B", "Cc">>[o]]>>
       IN  [i \in 1..3 |-> Module(<<"A", "B", "Cc">>[i], from(i, 1) \o from(i, 2) \o from(i, 3), all[i])]
Told == phase = "told" => Tell(Modules)

\* One alternative for each object that has the field.
Complete == (phase = "told" /\ shape \in {"plain", "opt"} /\ class \in {"full", "loose", "bare"}) =>
  LET r == Compile(Modules)
  IN  r.v = "ok" => LET c == r.x["T"].comps[IF shape = "plain" THEN 2 ELSE 4].ty
                        env == Env(Modules)
                        members == ObjectsOf(env, "Set", "KIND", Fuel).x
                    IN  {a.key : a \in Range(c.alts)} = {Num(env, SettingOf(o, "id").val[1]).x : o \in {x \in Range(members) : IsSet(x, "Type")}}
=============================================================================
