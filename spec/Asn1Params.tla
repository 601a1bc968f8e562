------------------------------ MODULE Asn1Params ------------------------------
(***************************************************************************)
(* A parameterized type, built component by component, and instances of    *)
(* it: direct ones, several, and through another parameterized type whose  *)
(* dummies have the same names in another order.  There are definitions    *)
(* that have the names of the dummies too.                                 *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS ParamLists,   \* sequences of dummies: A B (types) n m (values) S (a set)
          Bodies,       \* kinds of components
          Most,
          Wraps, Vias, Faults

VARIABLES params, body, wrap, via, fault, args, phase
vars == <<params, body, wrap, via, fault, args, phase>>

Kind(p) == CASE p \in {"A", "B"} -> "type" [] p \in {"n", "m"} -> "value" [] p = "S" -> "set"
Dummy(p) == IF Kind(p) = "set" THEN [n |-> p, g |-> "set", gov |-> "KIND"] ELSE [n |-> p, g |-> Kind(p)]
Key(s) == [k |-> "field", cls |-> "KIND", f |-> "id", set |-> <<s>>, at |-> <<>>]
Value(s) == [k |-> "field", cls |-> "KIND", f |-> "Type", set |-> <<s>>, at |-> <<"key">>]

Comps(k, i) == LET nm == "c" \o ToString(i) IN
  CASE k = "A"   -> <<C(nm, Ref("A"), "")>>
    [] k = "B"   -> <<C(nm, Ref("B"), "O")>>
    [] k = "Ac"  -> <<C(nm, RefC("A", <<Just(Rng(I(1), I(3)))>>), "")>>
    [] k = "Aof" -> <<C(nm, Of(<<Size(Just(Rng(I(0), R("n"))))>>, Ref("A")), "O")>>
    [] k = "in"  -> <<C(nm, Choice(<<C("p", Seq_(<<C("x", Ref("B"), "O"), C("y", Integer(<<Just(Rng(R("m"), R("n")))>>), "")>>), ""), C("q", Ref("A"), "")>>), "")>>
    [] k = "n"   -> <<C(nm, Integer(<<Just(Rng(I(0), R("n")))>>), "")>>
    [] k = "m"   -> <<C(nm, Oct(<<Size(Just(V(R("m"))))>>), "O")>>
    [] k = "nm"  -> <<C(nm, Integer(<<Con(<<<<V(R("n"))>>, <<V(R("m"))>>>>)>>), "")>>
    [] k = "e"   -> <<C(nm, Enum(<<It("x"), ItN("y", R("n")), It("z")>>, FALSE, <<>>), "")>>
    [] k = "c"   -> <<C(nm, RefC("Free", <<Just(Rng(I(0), R("m")))>>), "")>>
    [] k = "S"   -> <<C("key", Key("S"), ""), C("val", Value("S"), "")>>
    [] k = "P"   -> <<C(nm, Inst("Inner", <<[a |-> "type", ty |-> Ref("B")], [a |-> "value", val |-> R("m")]>>), "")>>

Init == params \in ParamLists /\ wrap \in Wraps /\ via \in Vias /\ fault \in Faults /\ body = <<>> /\ args = <<>> /\ phase = "body"
Component1 == phase = "body" /\ Len(body) < Most /\ \E k \in Bodies : body' = Append(body, k) /\ (k = "S" => \A i \in DOMAIN body : body[i] # "S") /\ UNCHANGED <<args, phase>>
Turn == phase = "body" /\ body # <<>> /\ phase' = "args" /\ UNCHANGED <<body, args>>
TypeArgs == {Ref("R"), Ref("A"), Ref("B")}
ValueArgs == {I(6), R("m"), R("n")}
SetArgs == {"Set", "S"}
Arg(p) == CASE Kind(p) = "type" -> {[a |-> "type", ty |-> t] : t \in TypeArgs} [] Kind(p) = "value" -> {[a |-> "value", val |-> w] : w \in ValueArgs} [] Kind(p) = "set" -> {[a |-> "set", n |-> s] : s \in SetArgs}
Actual == phase = "args" /\ Len(args) < Len(params) /\ \E x \in Arg(params[Len(args) + 1]) : args' = Append(args, x) /\ UNCHANGED <<body, phase>>
Next == (Component1 \/ Turn \/ Actual) /\ UNCHANGED <<params, wrap, via, fault>>
Spec == Init /\ [][Next]_vars

Structure == LET cs == Flatten([i \in DOMAIN body |-> Comps(body[i], i)])
             IN  CASE wrap = "seq" -> Seq_(cs)
                   [] wrap = "ext" -> [Seq_(cs) EXCEPT !.x = TRUE, !.adds = <<C("late", Ref("A"), "O")>>]
                   [] wrap = "choice" -> Choice([i \in DOMAIN cs |-> [cs[i] EXCEPT !.o = ""]])
                   [] wrap = "of" -> Of(<<>>, Seq_(cs))
                   [] wrap = "alone" -> cs[1].ty
Faulty(xs) == CASE fault = "short" -> Front(xs) [] fault = "long" -> Append(xs, Last(xs)) [] fault = "kind" -> Reverse(xs) [] OTHER -> xs
Dummies == Map(params, Dummy)
Own == Map(params, LAMBDA p : CASE Kind(p) = "type" -> [a |-> "type", ty |-> Ref(p)] [] Kind(p) = "value" -> [a |-> "value", val |-> R(p)] [] Kind(p) = "set" -> [a |-> "set", n |-> p])
\* The dummies of the other type: the same names, those of one kind in another order.
Swap(p) == CASE p = "A" -> "B" [] p = "B" -> "A" [] p = "n" -> "m" [] p = "m" -> "n" [] OTHER -> p
Swapped == Map(Own, LAMBDA x : CASE x.a = "type" -> [x EXCEPT !.ty.n = Swap(@)] [] x.a = "value" -> [x EXCEPT !.val.r = Swap(@)] [] OTHER -> x)
Swappable == \A i \in DOMAIN params : Swap(params[i]) \in Range(params)
Users ==
  CASE via = "direct" -> <<Def("T", Inst("P", Faulty(args)))>>
    [] via = "inner"  -> <<Def("T", Seq_(<<C("u", Inst("P", Faulty(args)), "O"), C("v", Bool, ""), C("w", Inst("P", args), "")>>))>>
    [] via = "two"    -> <<Def("T", Inst("P", args)), Def("U", Of(<<>>, Inst("P", Faulty(Own))))>>
    [] via = "through" -> <<Def("T", Inst("Q", args)), PDef("Q", Dummies, Seq_(<<C("s", Inst("P", Faulty(IF Swappable THEN Swapped ELSE Own)), ""), C("t", Inst("P", Own), "O")>>))>>
    [] via = "same"   -> <<Def("T", Inst("Q", Faulty(args))), PDef("Q", Dummies, Inst("P", Own))>>
Objects == <<[d |-> "class", n |-> "KIND", fields |-> <<[f |-> "id", k |-> "value", opt |-> "", uniq |-> TRUE, ty |-> <<Integer(<<Just(Rng(I(0), I(255)))>>)>>, dty |-> <<>>],
                                                        [f |-> "Type", k |-> "type", opt |-> "", uniq |-> FALSE, ty |-> <<>>, dty |-> <<>>]>>, syntax |-> <<[w |-> "ID", f |-> "id"], [w |-> "IS", f |-> "Type"]>>],
             [d |-> "set", n |-> "Set", cls |-> "KIND", elems |-> <<[o |-> <<[f |-> "id", val |-> <<I(1)>>, ty |-> <<>>], [f |-> "Type", val |-> <<>>, ty |-> <<Ref("A")>>]>>]>>, x |-> TRUE, at |-> 1],
             [d |-> "set", n |-> "S", cls |-> "KIND", elems |-> <<[o |-> <<[f |-> "id", val |-> <<R("n")>>, ty |-> <<>>], [f |-> "Type", val |-> <<>>, ty |-> <<Ref("R")>>]>>]>>, x |-> FALSE, at |-> 1]>>
Inner == PDef("Inner", <<[n |-> "A", g |-> "type"], [n |-> "n", g |-> "value"]>>, Seq_(<<C("i", Ref("A"), "O"), C("j", Integer(<<Just(Rng(I(0), R("n")))>>), "")>>))
Prelude == <<Def("R", Integer(<<Just(Rng(I(0), I(9)))>>)), Def("A", Bool), Def("B", Integer(<<Just(Rng(I(0), I(99)))>>)), Def("Free", Integer(<<>>)), Val("n", I(5)), Val("m", I(4)), Inner>>
Modules == One(Users \o <<PDef("P", Dummies, Structure)>> \o Prelude \o (IF "S" \in Range(params) \/ "S" \in Range(body) THEN Objects ELSE <<>>))
Whole == phase = "args" /\ Len(args) = Len(params)
\* A class field stands in SEQUENCEs only; "alone" is for one component.
Sensible == (wrap \in {"choice", "alone"} => "S" \notin Range(body)) /\ (wrap = "alone" => Len(body) = 1)
            /\ (fault = "kind" => Map(Faulty(args), LAMBDA a : a.a) # Map(args, LAMBDA a : a.a)) /\ (wrap = "alone" => body[1] # "P")
            /\ (fault = "kind" => Range(params) \subseteq TypeUses(Structure))
Told == (Whole /\ Sensible) => Tell(Modules)

\* An instance is what is written when the actual parameters are written instead of the dummies.
\* Names apart from those of the dummies: nothing can be mistaken.
Far(p) == CASE p = "A" -> "FarA" [] p = "B" -> "FarB" [] p = "n" -> "far-n" [] p = "m" -> "far-m" [] p = "S" -> "FarS"
Replaced == (Whole /\ Sensible /\ via = "direct" /\ fault = "none") =>
  LET env == Env(Modules)
      far == SubType([p \in Range(params) |-> CASE Kind(p) = "type" -> [a |-> "type", ty |-> Ref(Far(p))] [] Kind(p) = "value" -> [a |-> "value", val |-> R(Far(p))] [] Kind(p) = "set" -> [a |-> "set", n |-> Far(p)]], Structure)
      at(p) == args[CHOOSE i \in DOMAIN params : params[i] = p]
      \* one after the other: since the names are apart it makes no difference
      step(t, p) == SubType([q \in {Far(p)} |-> at(p)], t)
  IN  FoldLeft(step, far, params) = SubType(Binding(Dummies, args), Structure)

Lists == {<<"A">>, <<"A", "n">>, <<"n", "m", "A">>, <<"A", "B">>, <<"n", "m">>, <<"A", "B", "n", "m">>}
ListsS == {<<"S">>, <<"A", "S">>, <<"S", "n">>}
=============================================================================
