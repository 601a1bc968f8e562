--------------------------- MODULE Asn1Constraints ---------------------------
(***************************************************************************)
(* Constraints, built element by element: unions and intersections, an     *)
(* extension marker and what is behind it, further constraints after the   *)
(* first one.  Context says what is constrained.                           *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS Numbers,    \* a sequence of elements for constraints on values
          Sizes,      \* a sequence of elements for constraints on sizes
          Most,       \* how many of them
          Contexts

VARIABLES cs, n, Context
vars == <<cs, n, Context>>

OnLast(c) == [cs EXCEPT ![Len(cs)] = c]
L == cs[Len(cs)]
Bare(c) == c.x /\ c.a = <<>>
UnionWith(u, e) == Append(u, <<e>>)
MeetWith(u, e) == [u EXCEPT ![Len(u)] = Append(@, e)]
Into(c, F(_, _), e) == IF c.a = <<>> THEN [c EXCEPT !.u = F(@, e)] ELSE [c EXCEPT !.a[1] = F(@, e)]

OfNumbers == {"int", "comp", "alt", "ref", "ref2", "param"}
Els == IF Context \in OfNumbers THEN Numbers ELSE Sizes

Init == cs = <<>> /\ n = 0 /\ Context \in Contexts
More(e) == n' = n + 1
          /\ \/ cs' = Append(cs, Just(e))
             \/ cs # <<>> /\ ~Bare(L) /\ (cs' = OnLast(Into(L, UnionWith, e)) \/ cs' = OnLast(Into(L, MeetWith, e)))
             \/ cs # <<>> /\ ~L.x /\ cs' = OnLast([L EXCEPT !.x = TRUE, !.a = <<<<<<e>>>>>>])
Mark == cs # <<>> /\ ~L.x /\ cs' = OnLast(Ext(L)) /\ UNCHANGED n
Next == /\ Mark \/ (n < Most /\ \E i \in DOMAIN Els : More(Els[i]))
        /\ UNCHANGED Context
Spec == Init /\ [][Next]_vars

\* SIZE around each element, around each constraint.
SizeEach(u) == Map(u, LAMBDA i : Map(i, LAMBDA e : [e |-> "s", c |-> Just(e)]))
SizeAll(c) == [c EXCEPT !.u = SizeEach(@), !.a = Map(@, SizeEach)]
In(cc) == Map(cs, Size)
Prelude == <<Val("two", I(2)), Val("neg", I(-1)), Val("four", R("vier")), Val("vier", I(4))>>
Modules ==
  CASE Context = "int"   -> One(Prelude \o <<Def("T", Integer(cs))>>)
    [] Context = "comp"  -> One(<<Def("T", Seq_(<<C("a", Integer(cs), "O"), C("b", Bool, "")>>))>> \o Prelude)
    [] Context = "alt"   -> One(Prelude \o <<Def("T", Choice(<<C("a", Null, ""), C("b", Of(<<>>, Integer(cs)), "")>>))>>)
    [] Context = "param" -> One(Prelude \o <<PDef("P", <<[n |-> "X", g |-> "type"]>>, RefC("X", Tail(cs))), Def("T", Inst("P", <<[a |-> "type", ty |-> Ref("B")]>>)), Def("B", Integer(<<cs[1]>>))>>)
    [] Context = "ref"   -> One(Prelude \o <<Def("T", RefC("P", Tail(cs))), Def("P", Integer(<<cs[1]>>))>>)
    [] Context = "ref2"  -> One(Prelude \o <<Def("P", Integer(<<>>)), Def("T", RefC("Q", cs)), Def("Q", Ref("P"))>>)
    [] Context = "bit"   -> One(Prelude \o <<Def("T", Bit(In(cs)))>>)
    [] Context = "oct"   -> One(Prelude \o <<Def("T", Oct(In(cs)))>>)
    [] Context = "octo"  -> One(Prelude \o <<Def("T", Oct(Map(cs, SizeAll)))>>)
    [] Context = "str"   -> One(Prelude \o <<Def("T", Str("PrintableString", In(cs)))>>)
    [] Context = "of"    -> One(Prelude \o <<Def("T", IF Len(cs) = 1 THEN Of(In(cs), Bool) ELSE RefC("P", Tail(In(cs)))), Def("P", Of(<<In(cs)[1]>>, Ref("B"))), Def("B", Null)>>)
    [] Context = "octref" -> One(<<Def("T", RefC("P", Tail(In(cs)))), Def("P", Oct(<<In(cs)[1]>>))>> \o Prelude)
Told == cs # <<>> => Tell(Modules)

\* The bounds are values that are admitted, and none outside of them is.
Sane == (cs # <<>> /\ Context = "int") =>
  LET r == IntType(Env(Modules), cs)
      rc == Over(cs, LAMBDA c : Constraint(Env(Modules), c))
      ok(a) == \A i \in DOMAIN rc.x : InUnion(rc.x[i].u, a)
  IN  Failed(r) \/ (/\ Has(r.x.lb) => ok(r.x.lb[1]) /\ \A a \in -20..20 : a < r.x.lb[1] => ~ok(a)
                    /\ Has(r.x.ub) => ok(r.x.ub[1]) /\ \A a \in -20..20 : a > r.x.ub[1] => ~ok(a)
                    /\ ~Has(r.x.lb) => ok(-P31) /\ (~Has(r.x.ub) => ok(P31)))

(***************************************************************************)
(* Elements                                                                *)
(***************************************************************************)
Contained == [e |-> "t", ty |-> Integer(<<Con(<<<<Rng(I(2), I(4))>>, <<V(I(6))>>>>)>>)]
FewNumbers == <<V(I(3)), V(R("four")), Rng(I(0), I(3)), Rng(I(2), I(6)), Open(I(1), FALSE, I(5), TRUE), Open(I(3), FALSE, I(4), FALSE)>>
ManyNumbers == FewNumbers \o <<V(I(-2)), V(I(0)), Rng(R("neg"), R("two")), Open(I(1), TRUE, R("four"), FALSE), Rng(I(5), I(3)), Rng([m |-> "MIN"], I(3)), Rng(I(4), [m |-> "MAX"]), Contained, V(R("nobody")), Rng(I(7), I(7))>>
FewSizes == <<V(I(3)), Rng(I(0), I(3)), Rng(I(2), I(6)), Open(I(1), FALSE, I(5), TRUE), V(R("two"))>>
ManySizes == FewSizes \o <<V(I(0)), V(R("neg")), Rng(I(1), [m |-> "MAX"]), Rng(I(5), I(3)), Rng(I(0), I(P16 - 1)), Rng(I(1), I(P16)), Open(I(2), TRUE, R("four"), FALSE)>>
=============================================================================
