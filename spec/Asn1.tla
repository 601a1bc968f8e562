-------------------------------- MODULE Asn1 --------------------------------
(***************************************************************************)
(* What the compiler has to make of ASN.1 modules: for every type that is  *)
(* defined the structure of the Rust type (bounds, components, indices,    *)
(* keys), or an error.                                                     *)
(*                                                                         *)
(* A result has a verdict v:                                               *)
(*   "ok"   the compiler has to produce exactly x                          *)
(*   "may"  it may report an error, but if it succeeds then with exactly x *)
(*   "err"  it has to report an error                                      *)
(*                                                                         *)
(* Numbers are abstract: those below 2^28 stand for themselves, a landmark *)
(* (2^31, 2^63 ...) plus d, for small d, by a number below Inf plus d.     *)
(* All that matters is their order and who is next to whom.                *)
(*                                                                         *)
(* A module is [n: name, imports: <<[names, from], ...>>, defs: <<...>>]   *)
(* A definition has a field d:                                             *)
(*   type    n, params: <<[n, g: "type" | "value" | "set"], ...>>, ty      *)
(*   value   n, ty, val                                                    *)
(*   class   n, fields: <<[f, k: "value" | "type", opt, uniq, ty, dty]...>>*)
(*   object  n, cls, o: <<[f, val, ty], ...>>                              *)
(*   set     n, cls, elems: <<...>>, x                                     *)
(* A type has a field k:                                                   *)
(*   bool null oid int(cons) enum(items, x, adds) bit oct str(cons, kind)  *)
(*   of(cons, of) seq(comps, x, adds, more) choice(alts, x, adds)          *)
(*   ref(n, args, cons) field(cls, f, set, at)                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == <<>>
Some(x) == <<x>>
Has(o) == o # <<>>

(***************************************************************************)
(* Verdicts                                                                *)
(***************************************************************************)
Ok(x) == [v |-> "ok", x |-> x]
Maybe(x) == [v |-> "may", x |-> x]
Err == [v |-> "err", x |-> <<>>]
Worse(v, w) == IF "err" \in {v, w} THEN "err" ELSE IF "may" \in {v, w} THEN "may" ELSE "ok"
Failed(r) == r.v = "err"
With(v, r) == IF Failed(r) THEN Err ELSE [r EXCEPT !.v = Worse(v, @)]
Refuse(bad, r) == IF bad THEN Err ELSE r
Doubt(odd, r) == IF odd THEN With("may", r) ELSE r
\* Results of the elements of a sequence into the result of a sequence.
All(rs) == FoldLeft(LAMBDA a, r : IF Failed(a) \/ Failed(r) THEN Err ELSE [v |-> Worse(a.v, r.v), x |-> Append(a.x, r.x)], Ok(<<>>), rs)
Over(s, F(_)) == All([i \in DOMAIN s |-> F(s[i])])
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Distinct(s) == Cardinality(Range(s)) = Len(s)
Flatten(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

(***************************************************************************)
(* Numbers                                                                 *)
(***************************************************************************)
Inf == 1000000000
\* 2^31, 2^32, 2^63, 2^64, 2^126
P15 == 32768   P16 == 65536
P31 == 600000000   P32 == 700000000   P63 == 800000000   P64 == 900000000   P126 == 950000000
M15 == -P15   M31 == -P31   M63 == -P63   M64 == -P64   M126 == -P126
Holders == [u8 |-> <<0, 255>>, u16 |-> <<0, P16 - 1>>, u32 |-> <<0, P32 - 1>>, u64 |-> <<0, P64 - 1>>,
            i8 |-> <<-128, 127>>, i16 |-> <<M15, P15 - 1>>, i32 |-> <<M31, P31 - 1>>, i64 |-> <<M63, P63 - 1>>]
HoldersOf(lo, hi) == {h \in DOMAIN Holders : Holders[h][1] <= lo /\ hi <= Holders[h][2]}

(***************************************************************************)
(* What is defined: env is a function from names to definitions.           *)
(***************************************************************************)
Known(env, n, d) == n \in DOMAIN env /\ env[n].d = d
Fuel == 24

\* A number: [i |-> 5], [r |-> "name"] or [m |-> "MIN"].
RECURSIVE Number(_, _, _)
Number(env, w, fuel) ==
  IF "i" \in DOMAIN w THEN Ok(w.i)
  ELSE IF "m" \in DOMAIN w THEN Maybe(IF w.m = "MIN" THEN -Inf ELSE Inf)
  ELSE IF "r" \notin DOMAIN w \/ fuel = 0 \/ ~Known(env, w.r, "value") THEN Err
  ELSE Number(env, env[w.r].val, fuel - 1)
Num(env, w) == Number(env, w, Fuel)

(***************************************************************************)
(* Constraints.  [u: the root, a union of intersections; x: is there a     *)
(* marker; a: <<>> or <<the additional union>>].  An element is            *)
(*   [e |-> "v", val], [e |-> "r", lo, loi, hi, hii] (loi: inclusive)      *)
(*   [e |-> "t", ty]   a contained INTEGER type                            *)
(*   [e |-> "s", c]    SIZE with a constraint                              *)
(* When resolved, an element is an interval or a sequence of constraints.  *)
(***************************************************************************)
Interval(lo, hi) == [lo |-> lo, hi |-> hi, sub |-> <<>>]
RECURSIVE Element(_, _), Union(_, _), Constraint(_, _)
Element(env, e) ==
  CASE e.e = "v" -> LET a == Num(env, e.val) IN IF Failed(a) THEN Err ELSE [a EXCEPT !.x = Interval(a.x, a.x)]
    [] e.e = "r" -> LET lo == Num(env, e.lo)
                        hi == Num(env, e.hi)
                        from == IF e.loi THEN lo.x ELSE lo.x + 1
                        to   == IF e.hii THEN hi.x ELSE hi.x - 1
                    IN  IF Failed(lo) \/ Failed(hi) THEN Err
                        ELSE IF from > to THEN Err
                        ELSE [v |-> Worse(lo.v, hi.v), x |-> Interval(from, to)]
    [] e.e = "t" -> LET cs == Over(e.ty.cons, LAMBDA c : Constraint(env, c))
                    IN  IF Failed(cs) THEN Err ELSE [cs EXCEPT !.x = [lo |-> -Inf, hi |-> Inf, sub |-> @]]
    [] e.e = "s" -> LET c == Constraint(env, e.c)
                    IN  IF Failed(c) THEN Err ELSE [c EXCEPT !.x = [lo |-> -Inf, hi |-> Inf, sub |-> <<@>>]]
Union(env, u) == Over(u, LAMBDA i : Over(i, LAMBDA e : Element(env, e)))
Constraint(env, c) ==
  LET u == Union(env, c.u)
      a == IF Has(c.a) THEN Union(env, c.a[1]) ELSE Ok(<<>>)
  IN  IF Failed(u) \/ Failed(a) THEN Err
      ELSE [v |-> Worse(u.v, a.v), x |-> [u |-> u.x, x |-> c.x, a |-> a.x]]

\* Is a number among those that are admitted?
RECURSIVE InUnion(_, _), InElement(_, _)
InElement(e, a) == e.lo <= a /\ a <= e.hi /\ \A i \in DOMAIN e.sub : InUnion(e.sub[i].u, a)
InUnion(u, a) == \E i \in DOMAIN u : \A j \in DOMAIN u[i] : InElement(u[i][j], a)
\* The numbers where membership can change.
RECURSIVE Ends(_)
Ends(u) == UNION {{e.lo, e.hi} \cup UNION {Ends(e.sub[k].u) : k \in DOMAIN e.sub} : e \in UNION {Range(u[i]) : i \in DOMAIN u}}

Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Greatest(S) == CHOOSE a \in S : \A b \in S : a >= b
Bound(a) == IF a \in {-Inf, Inf} THEN None ELSE Some(a)

\* Constraints applied one after the other: the root is what satisfies them all; of the extension
\* only the last one speaks.  [lb, ub, ext, all: root and additions].
Applied(cs) ==
  LET ends == UNION {Ends(cs[i].u) \cup Ends(cs[i].a) : i \in DOMAIN cs} \cup {-Inf, Inf}
      root == {a \in ends : \A i \in DOMAIN cs : InUnion(cs[i].u, a)}
      more == {a \in ends : InUnion(cs[Len(cs)].a, a) /\ \A i \in 1..(Len(cs) - 1) : InUnion(cs[i].u, a)}
  IN  IF root = {} THEN [none |-> TRUE]
      ELSE [none |-> FALSE, lb |-> Bound(Least(root)), ub |-> Bound(Greatest(root)), ext |-> cs[Len(cs)].x, all |-> root \cup more]

IntType(env, cons) ==
  LET cs == Over(cons, LAMBDA c : Constraint(env, c))
  IN  IF Failed(cs) THEN Err
      ELSE IF cons = <<>> THEN Ok([k |-> "int", lb |-> None, ub |-> None, ext |-> FALSE, h |-> {"i64"}])
      ELSE LET s == Applied(cs.x)
           IN  IF s.none THEN Err
               ELSE LET h == HoldersOf(Least(s.all), Greatest(s.all))
                        open == s.lb = None \/ s.ub = None
                    IN  IF h = {} /\ ~open THEN Err
                        ELSE Doubt(open, [v |-> cs.v, x |-> [k |-> "int", lb |-> s.lb, ub |-> s.ub, ext |-> s.ext, h |-> IF open THEN {"i64"} ELSE h]])

\* Of a SIZE constraint within others the marker counts if it stands alone.
Alone(c) == Len(c.u) = 1 /\ Len(c.u[1]) = 1 /\ c.u[1][1].sub # <<>>
SizeExt(c) == c.x \/ (Alone(c) /\ c.u[1][1].sub[1].x)
Mixed(c) == ~Alone(c) /\ \E i \in DOMAIN c.u : \E j \in DOMAIN c.u[i] : c.u[i][j].sub # <<>> /\ c.u[i][j].sub[1].x
IsSize(c) == "ct" \notin DOMAIN c
Sized(env, cons, x) ==
  LET sizes == SelectSeq(cons, IsSize)
      cs == Over(sizes, LAMBDA c : Constraint(env, c))
  IN  IF Failed(cs) THEN Err
      ELSE IF sizes = <<>> THEN Ok(x @@ [lb |-> None, ub |-> None, ext |-> FALSE])
      ELSE LET s == Applied(cs.x)
           IN  IF s.none \/ (s.lb # None /\ s.lb[1] < 0) THEN Err
               ELSE Doubt(\/ s.lb = None \/ s.ub = None \/ \E i \in DOMAIN cs.x : Mixed(cs.x[i])
                      \/ \E i \in DOMAIN cs.x : \E a \in Ends(cs.x[i].u) \cup Ends(cs.x[i].a) : -Inf < a /\ a < 0,    \* no size at all
                          [v |-> cs.v, x |-> x @@ [lb |-> s.lb, ub |-> s.ub, ext |-> SizeExt(cs.x[Len(cs.x)])]])

(***************************************************************************)
(* ENUMERATED (clause 20): items without a number get the least ones that  *)
(* no item of the root has; the index is the place in the order of numbers.*)
(***************************************************************************)
Free(taken, n) == CHOOSE k \in 0..(n + Cardinality(taken)) : k \notin taken /\ Cardinality({j \in 0..(k - 1) : j \notin taken}) = n
EnumType(env, ty) ==
  LET items == Over(ty.items, LAMBDA i : IF Has(i.num) THEN Num(env, i.num[1]) ELSE Ok(0))
      adds  == Over(ty.adds, LAMBDA i : IF Has(i.num) THEN Num(env, i.num[1]) ELSE Ok(0))
      I     == DOMAIN ty.items
      given == {i \in I : Has(ty.items[i].num)}
      taken == {items.x[i] : i \in given}
      num(i) == IF i \in given THEN items.x[i] ELSE Free(taken, Cardinality({j \in 1..(i - 1) : j \notin given}))
      names == Map(ty.items \o ty.adds, LAMBDA i : i.n)
      order == SortSeq([i \in I |-> i], LAMBDA i, j : num(i) < num(j))
      \* an addition without a number gets the next one that the root does not have
      roots == {num(i) : i \in I}
      ascending == FoldLeft(LAMBDA acc, i : IF Has(ty.adds[i].num) THEN [ok |-> acc.ok /\ adds.x[i] > acc.at, at |-> adds.x[i]]
                              ELSE [acc EXCEPT !.at = LET low == IF @ < 0 THEN 0 ELSE @ + 1
                                                      IN  CHOOSE k \in low..(low + Cardinality(I)) : k \notin roots /\ \A j \in low..(k - 1) : j \in roots],
                            [ok |-> TRUE, at |-> -Inf], [i \in DOMAIN ty.adds |-> i]).ok
      addnums == {adds.x[i] : i \in {j \in DOMAIN ty.adds : Has(ty.adds[j].num)}}
  IN  IF Failed(items) \/ Failed(adds) \/ ty.items = <<>> \/ ~Distinct(names) \/ Cardinality(taken) # Cardinality(given) THEN Err
      \* what makes the additions wrong
      ELSE IF addnums \cap roots # {} THEN Err
      ELSE Doubt(~ascending,
                 [v |-> Worse(items.v, adds.v), x |-> [k |-> "enum", names |-> Map(order, LAMBDA i : ty.items[i].n), ext |-> ty.x, h |-> HoldersOf(0, Len(ty.items) - 1)]])

(***************************************************************************)
(* Parameters: the actual ones are put in place of the dummies, all at     *)
(* once.  m: function from dummies to [a |-> "type", ty], [a |-> "value",  *)
(* val], [a |-> "set", n].                                                 *)
(***************************************************************************)
Is(m, n, a) == n \in DOMAIN m /\ m[n].a = a
SubVal(m, w) == IF "r" \in DOMAIN w THEN IF Is(m, w.r, "value") THEN m[w.r].val ELSE w ELSE w
RECURSIVE SubType(_, _), SubCons(_, _), SubUnion(_, _)
SubUnion(m, u) == Map(u, LAMBDA i : Map(i, LAMBDA e :
  CASE e.e = "v" -> [e EXCEPT !.val = SubVal(m, @)]
    [] e.e = "r" -> [e EXCEPT !.lo = SubVal(m, @), !.hi = SubVal(m, @)]
    [] e.e = "t" -> [e EXCEPT !.ty = SubType(m, @)]
    [] e.e = "s" -> [e EXCEPT !.c = SubCons(m, <<@>>)[1]]))
SubCons(m, cons) == Map(cons, LAMBDA c : IF ~IsSize(c) THEN [ct |-> SubType(m, c.ct)]
                                          ELSE [c EXCEPT !.u = SubUnion(m, @), !.a = Map(@, LAMBDA u : SubUnion(m, u))])
SubArg(m, a) == CASE a.a = "type" -> [a EXCEPT !.ty = SubType(m, @)]
                  [] a.a = "value" -> [a EXCEPT !.val = SubVal(m, @)]
                  [] a.a = "set" -> IF Is(m, a.n, "set") THEN m[a.n] ELSE a
SubComps(m, cs) == Map(cs, LAMBDA c : [c EXCEPT !.ty = SubType(m, @)])
SubItems(m, is) == Map(is, LAMBDA i : [i EXCEPT !.num = Map(@, LAMBDA w : SubVal(m, w))])
SubType(m, ty) ==
  CASE ty.k \in {"bool", "null", "oid"} -> ty
    [] ty.k \in {"int", "bit", "oct", "str"} -> [ty EXCEPT !.cons = SubCons(m, @)]
    [] ty.k = "enum" -> [ty EXCEPT !.items = SubItems(m, @), !.adds = SubItems(m, @)]
    [] ty.k = "of" -> [ty EXCEPT !.cons = SubCons(m, @), !.of = SubType(m, @)]
    [] ty.k = "seq" -> [ty EXCEPT !.comps = SubComps(m, @), !.adds = SubComps(m, @), !.more = SubComps(m, @)]
    [] ty.k = "choice" -> [ty EXCEPT !.alts = SubComps(m, @), !.adds = SubComps(m, @)]
    [] ty.k = "field" -> [ty EXCEPT !.set = Map(@, LAMBDA s : IF Is(m, s, "set") THEN m[s].n ELSE s)]
    [] ty.k = "ref" -> IF Is(m, ty.n, "type")
                       THEN LET t == m[ty.n].ty
                            IN  IF ty.cons = <<>> THEN t
                                ELSE IF t.k \in {"int", "bit", "oct", "str", "of", "ref"} THEN [t EXCEPT !.cons = @ \o SubCons(m, ty.cons)] ELSE t
                       ELSE [ty EXCEPT !.args = Map(@, LAMBDA a : SubArg(m, a)), !.cons = SubCons(m, @)]

Matches(params, args) == Len(params) = Len(args) /\ \A i \in DOMAIN params : params[i].g = args[i].a
Binding(params, args) == [n \in {params[i].n : i \in DOMAIN params} |-> args[CHOOSE i \in DOMAIN params : params[i].n = n]]

(***************************************************************************)
(* Object sets: the objects, those of other sets that are included too.    *)
(* An object is a sequence of settings [f, val: <<>> or <<number>>, ty:    *)
(* <<>> or <<type>>].  Elements: [o |-> settings], [r |-> object],         *)
(* [s |-> set].                                                            *)
(***************************************************************************)
RECURSIVE ObjectsOf(_, _, _, _)
ObjectsOf(env, n, cls, fuel) ==
  IF fuel = 0 \/ ~Known(env, n, "set") THEN Err
  ELSE IF env[n].cls # cls THEN Err
  ELSE LET rs == Over(env[n].elems, LAMBDA e :
                   IF "o" \in DOMAIN e THEN Ok(<<e.o>>)
                   ELSE IF "r" \in DOMAIN e THEN IF Known(env, e.r, "object") /\ env[e.r].cls = cls THEN Ok(<<env[e.r].o>>) ELSE Err
                   ELSE ObjectsOf(env, e.s, cls, fuel - 1))
       IN  IF Failed(rs) THEN Err ELSE [rs EXCEPT !.x = Flatten(@)]

FieldOf(cls, f) == CHOOSE x \in Range(cls.fields) : x.f = f
HasField(cls, f) == \E x \in Range(cls.fields) : x.f = f
SettingOf(o, f) == CHOOSE x \in Range(o) : x.f = f
IsSet(o, f) == \E x \in Range(o) : x.f = f
\* Do the settings follow the class?
Follows(env, cls, o) ==
  /\ Distinct(Map(o, LAMBDA s : s.f))
  /\ \A s \in Range(o) : HasField(cls, s.f) /\ (FieldOf(cls, s.f).k = "type") = Has(s.ty)
  /\ \A x \in Range(cls.fields) : x.opt = "" => IsSet(o, x.f)

(***************************************************************************)
(* Types                                                                   *)
(***************************************************************************)
RECURSIVE Type(_, _, _), Chased(_, _, _)
\* The type that a reference stands for, with all the constraints that were applied on the way.
Chased(env, ty, fuel) ==
  IF ty.k # "ref" THEN Ok(ty)
  ELSE IF fuel = 0 \/ ~Known(env, ty.n, "type") THEN Err
  ELSE LET def == env[ty.n]
           body == IF def.params = <<>> THEN def.ty ELSE SubType(Binding(def.params, ty.args), def.ty)
       IN  IF ~Matches(def.params, ty.args) THEN Err
           ELSE LET t == Chased(env, body, fuel - 1)
                IN  IF Failed(t) \/ ty.cons = <<>> THEN t
                    ELSE IF t.x.k \in {"int", "bit", "oct", "str", "of"} THEN [t EXCEPT !.x.cons = @ \o ty.cons]
                    ELSE Maybe([t.x EXCEPT !.k = @])

Comp(n, opt, key, ty) == [n |-> n, opt |-> opt, key |-> key, ty |-> ty]

\* The objects of a set, if they follow the class and no two different ones have one identifier.
Identifier(cls) == CHOOSE x \in Range(cls.fields) : x.uniq
Identified(cls) == \E x \in Range(cls.fields) : x.uniq
Members(env, cls, set, fuel) ==
  LET os == ObjectsOf(env, set, cls, Fuel)
      c  == env[cls]
      key(o) == Num(env, SettingOf(o, Identifier(c).f).val[1])
      content(o) == [f \in {x.f : x \in Range(o)} \ {Identifier(c).f} |->
                       LET x == SettingOf(o, f) IN IF Has(x.ty) THEN Type(env, x.ty[1], fuel) ELSE Num(env, x.val[1])]
      broken(o) == \E f \in DOMAIN content(o) : Failed(content(o)[f])
      keyed == Map(os.x, LAMBDA o : <<key(o).x, content(o)>>)
  IN  IF Failed(os) \/ ~Identified(c) THEN Err
      ELSE IF \E o \in Range(os.x) : ~Follows(env, c, o) THEN Err
      ELSE IF \E o \in Range(os.x) : ~IsSet(o, Identifier(c).f) THEN Err
      ELSE IF \E o \in Range(os.x) : Failed(key(o)) \/ key(o).x < 0 \/ broken(o) THEN Err
      ELSE IF Cardinality(Range(keyed)) # Cardinality({k[1] : k \in Range(keyed)}) THEN Err
      ELSE Doubt(~Distinct(keyed), os)

\* The alternatives of an open type: one per object that has the field.
OpenType(env, cls, f, set, fuel) ==
  LET os == Members(env, cls, set, fuel)
      c  == env[cls]
      dflt == FieldOf(c, f).dty
      has(o) == IsSet(o, f) \/ Has(dflt)
      tyOf(o) == IF IsSet(o, f) THEN SettingOf(o, f).ty[1] ELSE dflt[1]
      rs == Over(SelectSeq(os.x, LAMBDA o : has(o)), LAMBDA o :
                 LET w == SettingOf(o, Identifier(c).f).val[1]
                     key == Num(env, w)
                     ty == Type(env, tyOf(o), fuel)
                 IN  IF Failed(ty) THEN Err
                     ELSE [v |-> Worse(key.v, ty.v), x |-> [n |-> IF "r" \in DOMAIN w THEN w.r ELSE "", key |-> key.x, ty |-> ty.x]])
  IN  IF Failed(os) THEN Err
      ELSE IF Failed(rs) THEN Err
      ELSE Doubt(rs.x = <<>>, [v |-> Worse(os.v, rs.v), x |-> [k |-> "open", alts |-> rs.x]])

\* The components of a SEQUENCE.  Those of a class field look back to the one that selects them.
Component(env, cs, i, fuel) ==
  LET c == cs[i]
      t == c.ty
      opt == c.o # ""
      earlier == {j \in 1..(i - 1) : cs[j].ty.k = "field" /\ cs[j].n = t.at[1]}
      keys == {j \in 1..(i - 1) : cs[j].ty.k = "field" /\ Has(cs[j].ty.set) /\ Known(env, cs[j].ty.cls, "class")
                                  /\ HasField(env[cs[j].ty.cls], cs[j].ty.f) /\ FieldOf(env[cs[j].ty.cls], cs[j].ty.f).uniq}
  IN  IF t.k # "field" THEN LET r == Type(env, t, fuel) IN IF Failed(r) THEN Err ELSE [r EXCEPT !.x = Comp(c.n, opt, FALSE, @)]
      ELSE IF ~Known(env, t.cls, "class") THEN Err
      ELSE IF ~HasField(env[t.cls], t.f) THEN Err
      ELSE LET fld == FieldOf(env[t.cls], t.f)
           IN  IF fld.k = "value"
               THEN LET r == Type(env, fld.ty[1], fuel)
                        s == IF Has(t.set) THEN ObjectsOf(env, t.set[1], t.cls, Fuel) ELSE Ok(<<>>)
                    IN  IF Failed(r) \/ Failed(s) THEN Err
                        ELSE IF \E o \in Range(s.x) : ~Follows(env, env[t.cls], o) THEN Err
                        ELSE Doubt(Has(t.at), [v |-> Worse(r.v, s.v), x |-> Comp(c.n, opt, Has(t.set) /\ fld.uniq, r.x)])
               ELSE IF ~Has(t.set) THEN Err
               ELSE LET r == OpenType(env, t.cls, t.f, t.set[1], fuel)
                        j == IF keys = {} THEN 0 ELSE Greatest(keys)
                    IN  IF Failed(r) THEN Err
                        ELSE IF ~Has(t.at) THEN IF r.x.alts = <<>> THEN With("may", [r EXCEPT !.x = Comp(c.n, opt, FALSE, @)]) ELSE Err
                        ELSE IF j = 0 THEN With("may", [r EXCEPT !.x = Comp(c.n, opt, FALSE, @)])
                        ELSE IF cs[j].n # t.at[1] \/ cs[j].ty.cls # t.cls \/ cs[j].ty.set # t.set
                             THEN IF r.x.alts = <<>> THEN With("may", [r EXCEPT !.x = Comp(c.n, opt, FALSE, @)]) ELSE Err
                        ELSE [r EXCEPT !.x = Comp(c.n, opt, FALSE, @)]

SeqType(env, ty, fuel) ==
  LET root == ty.comps \o ty.more
      rs == All([i \in DOMAIN root |-> Component(env, root, i, fuel)])
      adds == Over(ty.adds, LAMBDA c : IF c.ty.k = "field" THEN Ok(0) ELSE Type(env, c.ty, fuel))
      names == Map(root, LAMBDA c : c.n)
  IN  IF Failed(rs) \/ ~Distinct(names) THEN Err
      ELSE Doubt(Failed(adds) \/ adds.v = "may" \/ ~Distinct(names \o Map(ty.adds, LAMBDA c : c.n)),
                 [v |-> rs.v, x |-> [k |-> "seq", comps |-> rs.x, ext |-> ty.x]])

ChoiceType(env, ty, fuel) ==
  LET alt(c) == LET r == Type(env, c.ty, fuel) IN IF Failed(r) THEN Err ELSE [r EXCEPT !.x = [n |-> c.n, ty |-> @]]
      root == Over(ty.alts, alt)
      adds == Over(ty.adds, alt)
  IN  IF Failed(root) \/ Failed(adds) \/ ty.alts = <<>> \/ ~Distinct(Map(ty.alts \o ty.adds, LAMBDA c : c.n)) THEN Err
      ELSE [v |-> Worse(root.v, adds.v), x |-> [k |-> "choice", root |-> root.x, adds |-> adds.x, ext |-> ty.x]]

Type(env, ty, fuel) ==
  IF fuel = 0 THEN Err
  ELSE
  CASE ty.k \in {"bool", "null", "oid"} -> Ok([k |-> ty.k])
    [] ty.k = "int"  -> IntType(env, ty.cons)
    [] ty.k = "enum" -> EnumType(env, ty)
    [] ty.k = "bit"  -> Sized(env, ty.cons, [k |-> "bit"])
    [] ty.k = "oct"  -> Sized(env, ty.cons, [k |-> "oct"])
    [] ty.k = "str"  -> Sized(env, ty.cons, [k |-> "str", kind |-> ty.kind])
    [] ty.k = "of"   -> LET r == Type(env, ty.of, fuel - 1) IN IF Failed(r) THEN Err ELSE With(r.v, Sized(env, ty.cons, [k |-> "of", of |-> r.x]))
    [] ty.k = "seq"  -> SeqType(env, ty, fuel - 1)
    [] ty.k = "choice" -> ChoiceType(env, ty, fuel - 1)
    [] ty.k = "field" -> Err                                    \* only as components
    [] ty.k = "ref"  ->
         IF ~Known(env, ty.n, "type") THEN Err
         ELSE IF ~Matches(env[ty.n].params, ty.args) THEN Err
         ELSE IF ty.args # <<>> \/ ty.cons # <<>>
              THEN LET def == env[ty.n]
                       \* a reference alone in a parameterized type stays one
                       one == IF def.params = <<>> THEN ty ELSE SubType(Binding(def.params, ty.args), def.ty)
                       t == Chased(env, ty, Fuel)
                   IN  IF Failed(t) THEN Err
                       ELSE IF ty.cons = <<>> THEN With(t.v, Type(env, one, fuel - 1))
                       ELSE IF t.x.k \in {"int", "bit", "oct", "str", "of"} THEN With(t.v, Type(env, t.x, fuel - 1))
                       ELSE Maybe([k |-> "ref", n |-> ty.n])
         ELSE Ok([k |-> "ref", n |-> ty.n])

(***************************************************************************)
(* Modules                                                                 *)
(***************************************************************************)
Builtin(args) == \E i \in DOMAIN args : args[i].a = "type" /\ args[i].ty.k # "ref"

\* What a definition mentions: [n |-> name, s |-> is it within a structure].
RECURSIVE TypeUses(_), ConsUses(_)
ValUses(w) == IF "r" \in DOMAIN w THEN {w.r} ELSE {}
UnionUses(u) == UNION {UNION {LET e == u[i][j] IN
    CASE e.e = "v" -> ValUses(e.val) [] e.e = "r" -> ValUses(e.lo) \cup ValUses(e.hi)
      [] e.e = "t" -> TypeUses(e.ty) [] e.e = "s" -> ConsUses(<<e.c>>) : j \in DOMAIN u[i]} : i \in DOMAIN u}
ConsUses(cons) == UNION {IF ~IsSize(cons[i]) THEN TypeUses(cons[i].ct) ELSE UnionUses(cons[i].u) \cup UNION {UnionUses(cons[i].a[j]) : j \in DOMAIN cons[i].a} : i \in DOMAIN cons}
ArgUses(a) == CASE a.a = "type" -> TypeUses(a.ty) [] a.a = "value" -> ValUses(a.val) [] a.a = "set" -> {a.n}
CompUses(cs) == UNION {TypeUses(cs[i].ty) : i \in DOMAIN cs}
TypeUses(ty) ==
  CASE ty.k \in {"bool", "null", "oid"} -> {}
    [] ty.k \in {"int", "bit", "oct", "str"} -> ConsUses(ty.cons)
    [] ty.k = "enum" -> UNION {IF Has(i.num) THEN ValUses(i.num[1]) ELSE {} : i \in Range(ty.items \o ty.adds)}
    [] ty.k = "of" -> ConsUses(ty.cons) \cup TypeUses(ty.of)
    [] ty.k = "seq" -> CompUses(ty.comps \o ty.adds \o ty.more)
    [] ty.k = "choice" -> CompUses(ty.alts \o ty.adds)
    [] ty.k = "field" -> {ty.cls} \cup Range(ty.set)
    [] ty.k = "ref" -> {ty.n} \cup UNION {ArgUses(ty.args[i]) : i \in DOMAIN ty.args} \cup ConsUses(ty.cons)
ObjUses(o) == UNION {UNION {ValUses(w) : w \in Range(s.val)} \cup UNION {TypeUses(t) : t \in Range(s.ty)} : s \in Range(o)}
Uses(def) ==
  CASE def.d = "type" -> TypeUses(def.ty) \ {def.params[i].n : i \in DOMAIN def.params}
    [] def.d = "value" -> ValUses(def.val) \cup TypeUses(def.ty)
    [] def.d = "class" -> UNION {UNION {TypeUses(t) : t \in Range(f.ty) \cup Range(f.dty)} : f \in Range(def.fields)}
    [] def.d = "object" -> {def.cls} \cup ObjUses(def.o)
    [] def.d = "set" -> {def.cls} \cup UNION {LET e == def.elems[i] IN IF "o" \in DOMAIN e THEN ObjUses(e.o) ELSE IF "r" \in DOMAIN e THEN {e.r} ELSE {e.s} : i \in DOMAIN def.elems}

Names(m) == {m.defs[i].n : i \in DOMAIN m.defs}
Imported(m) == UNION {Range(m.imports[i].names) : i \in DOMAIN m.imports}
Env(mods) == LET all == Flatten(Map(mods, LAMBDA m : m.defs))
             IN  [n \in {all[i].n : i \in DOMAIN all} |-> all[CHOOSE i \in DOMAIN all : all[i].n = n]]

\* Every name that is used is defined here or imported from where it is defined.
ImportsFit(mods) ==
  \A m \in Range(mods) : \A i \in DOMAIN m.imports :
     \E o \in Range(mods) : o.n = m.imports[i].from /\ Range(m.imports[i].names) \subseteq Names(o)
Visible(m) == \A d \in Range(m.defs) : Uses(d) \subseteq Names(m) \cup Imported(m)

\* The names from which a name can be reached.
RECURSIVE Reach(_, _, _)
Reach(uses, S, fuel) == LET T == S \cup UNION {uses[n] : n \in S \cap DOMAIN uses} IN IF T = S \/ fuel = 0 THEN S ELSE Reach(uses, T, fuel - 1)
Circular(env) == LET uses == [n \in DOMAIN env |-> Uses(env[n])] IN \E n \in DOMAIN env : n \in Reach(uses, uses[n] \cap DOMAIN env, Cardinality(DOMAIN env) + 1)
\* The modules from which a module imports.
Tangled(mods) == LET from == [n \in {m.n : m \in Range(mods)} |-> LET m == CHOOSE o \in Range(mods) : o.n = n IN {m.imports[i].from : i \in DOMAIN m.imports}]
                 IN  \E n \in DOMAIN from : n \in Reach(from, from[n], Len(mods) + 1)

\* A chain of references that comes to no end.
RECURSIVE Endless(_, _, _)
Endless(env, n, fuel) ==
  IF fuel = 0 THEN TRUE
  ELSE IF Known(env, n, "type") THEN env[n].ty.k = "ref" /\ env[n].ty.n \in DOMAIN env /\ Endless(env, env[n].ty.n, fuel - 1)
  ELSE IF Known(env, n, "value") THEN "r" \in DOMAIN env[n].val /\ env[n].val.r \in DOMAIN env /\ Endless(env, env[n].val.r, fuel - 1)
  ELSE FALSE

\* A value: [i |-> 5], [b |-> TRUE], [en |-> "red"] or [r |-> "name"].  What satisfies the constraints
\* of the type has to be accepted, what is of another type refused.
ValueDef(env, def) ==
  LET t == Chased(env, def.ty, Fuel)
      k == t.x.k
      w == def.val
      fits == LET cs == Over(t.x.cons, LAMBDA c : Constraint(env, c)) IN ~Failed(cs) /\ \A i \in DOMAIN cs.x : InUnion(cs.x[i].u, w.i)
  IN  IF Failed(t) THEN Err
      ELSE IF k \notin {"int", "bool", "enum"} THEN IF "r" \in DOMAIN w /\ ~Known(env, w.r, "value") THEN Err ELSE Maybe(0)
      ELSE IF "b" \in DOMAIN w THEN IF k = "bool" THEN Ok(0) ELSE Err
      ELSE IF "i" \in DOMAIN w THEN IF k # "int" THEN Err ELSE Doubt(~fits \/ w.i > P126 + 1000 \/ w.i < M126 - 1000, Ok(0))
      ELSE IF "en" \in DOMAIN w THEN IF k = "enum" /\ \E x \in Range(t.x.items \o t.x.adds) : x.n = w.en THEN Ok(0) ELSE Err
      ELSE IF ~Known(env, w.r, "value") THEN Err
      ELSE LET u == Chased(env, env[w.r].ty, Fuel)
           IN  IF Failed(u) THEN Err ELSE Doubt(u.x.k # k \/ (k = "int" /\ t.x.cons # <<>>), Ok(0))

\* [v, x: function from the names of the types to their structure]
Compile(mods) ==
  LET all == Flatten(Map(mods, LAMBDA m : m.defs))
      env == Env(mods)
      types == {n \in DOMAIN env : env[n].d = "type" /\ env[n].params = <<>>}
      values == {n \in DOMAIN env : env[n].d = "value"}
      once == Distinct(Map(all, LAMBDA d : d.n))
      sameModule == \E m \in Range(mods) : ~Distinct(Map(m.defs, LAMBDA d : d.n))
  IN  IF ~Distinct(Map(mods, LAMBDA m : m.n)) \/ sameModule THEN Err
      ELSE IF ~ImportsFit(mods) \/ \E m \in Range(mods) : ~Visible(m) THEN Err
      ELSE IF \E m \in Range(mods) : Names(m) \cap Imported(m) # {} THEN Err
      ELSE IF \E n \in DOMAIN env : Endless(env, n, Cardinality(DOMAIN env) + 1) THEN Err
      ELSE IF ~once \/ Circular(env) \/ Tangled(mods) THEN [v |-> "may", x |-> <<>>, any |-> TRUE]
      ELSE LET rs == [n \in types |-> Type(env, env[n].ty, Fuel)]
               vs == [n \in values |-> ValueDef(env, env[n])]
               \* what is wrong with a set that is not used may be reported
               sets == {n \in DOMAIN env : env[n].d = "set"}
               objects == {n \in DOMAIN env : env[n].d = "object"}
               fine(n) == IF env[n].d = "set" THEN Known(env, env[n].cls, "class") /\ ~Failed(Members(env, env[n].cls, n, Fuel))
                          ELSE Known(env, env[n].cls, "class") /\ Follows(env, env[env[n].cls], env[n].o)
               verdicts == {rs[n].v : n \in types} \cup {vs[n].v : n \in values} \cup (IF \A n \in sets \cup objects : fine(n) THEN {} ELSE {"may"})
           IN  IF "err" \in verdicts THEN Err
               ELSE [v |-> IF "may" \in verdicts THEN "may" ELSE "ok", x |-> [n \in types |-> rs[n].x]]
=============================================================================
