--------------------------- MODULE Asn1References ---------------------------
(***************************************************************************)
(* Definitions that refer to each other, in one module or several with     *)
(* imports, right and wrong ones.  They are written one by one; after that *)
(* they are resolved in any order in which what a definition mentions is   *)
(* resolved before it, and it must not matter in which.                    *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS Most,        \* how many definitions
          Deals,       \* ways of dealing them out to modules: functions of their number
          Faults,      \* what may be wrong with the imports
          Shapes, ValueShapes,
          Ways         \* "down": only to what comes before in some order; "any": to whatever is there, or not

VARIABLES defs, deal, fault, phase, known,
          way, rank, types      \* the order; which of them are types, the others are values
vars == <<defs, deal, fault, phase, known, way, rank, types>>

T(i) == "T" \o ToString(i)
W(i) == "v" \o ToString(i)
Shape(k, i) ==
  CASE k = "bool"  -> Bool
    [] k = "range" -> Integer(<<Just(Rng(I(0), I(9)))>>)
    [] k = "ref"   -> Ref(T(i))
    [] k = "refc"  -> RefC(T(i), <<Just(Rng(I(1), I(3)))>>)
    [] k = "seq"   -> Seq_(<<C("a", Ref(T(i)), "O"), C("b", Null, "")>>)
    [] k = "two"   -> Seq_(<<C("a", Ref(T(i)), ""), C("b", Ref(T((i % Most) + 1)), "O")>>)
    [] k = "of"    -> Of(<<Size(Just(V(I(2))))>>, Ref(T(i)))
    [] k = "alt"   -> Choice(<<C("p", Null, ""), C("q", Ref(T(i)), "")>>)
    [] k = "upto"  -> Integer(<<Just(Rng(I(0), R(W(i))))>>)
    [] k = "size"  -> Oct(<<Size(Just(V(R(W(i)))))>>)
    [] k = "item"  -> Enum(<<It("x"), ItN("y", R(W(i))), ItN("z", I(5))>>, FALSE, <<>>)

Deal == [d \in {"one", "first", "last", "alternate", "three"} |->
  CASE d = "one" -> [i \in 1..Most |-> 1] [] d = "first" -> [i \in 1..Most |-> IF i = 1 THEN 1 ELSE 2]
    [] d = "last" -> [i \in 1..Most |-> IF i = Most THEN 2 ELSE 1] [] d = "alternate" -> [i \in 1..Most |-> 1 + (i % 2)]
    [] d = "three" -> [i \in 1..Most |-> 1 + (i % 3)]]

Init == /\ defs = <<>> /\ deal \in Deals /\ fault \in Faults /\ phase = "write" /\ known = {}
        /\ way \in Ways
        /\ rank \in IF way = "down" THEN {f \in [1..Most -> 1..Most] : \A i, j \in 1..Most : i # j => f[i] # f[j]} ELSE {[i \in 1..Most |-> i]}
        /\ types \in SUBSET (1..Most)
Here == Len(defs) + 1
OfValues == {"upto", "size", "item", "as"}
Leaves == {"bool", "range", "is"}
Targets(k) == IF k \in Leaves THEN {1}
              ELSE IF way = "any" THEN 1..(Most + 1)
              ELSE {i \in 1..Most : rank[i] < rank[Here] /\ (i \in types) = (k \notin OfValues) /\ (k = "two" => rank[(i % Most) + 1] < rank[Here] /\ ((i % Most) + 1) \in types)}
Write == /\ phase = "write" /\ Len(defs) < Most
         /\ IF Here \in types
            THEN \E k \in Shapes : \E i \in Targets(k) : defs' = Append(defs, Def(T(Here), Shape(k, i)))
            ELSE \E k \in ValueShapes : \E i \in Targets(k) : defs' = Append(defs, Val(W(Here), IF k = "is" THEN I(Here + 1) ELSE R(W(i))))
         /\ UNCHANGED <<phase, known, deal, fault, way, rank, types>>
Turn == phase = "write" /\ Len(defs) = Most /\ phase' = "resolve" /\ UNCHANGED <<defs, deal, fault, known, way, rank, types>>

ModuleNames == <<"One", "Other-Two", "Three">>
Of1(m) == SelectSeq([i \in DOMAIN defs |-> IF Deal[deal][i] = m THEN <<defs[i]>> ELSE <<>>], LAMBDA x : x # <<>>)
DefsOf(m) == Flatten(Of1(m))
Defined(m) == {DefsOf(m)[i].n : i \in DOMAIN DefsOf(m)}
Needs(m) == UNION {Uses(d) : d \in Range(DefsOf(m))} \ Defined(m)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : TRUE)
Dealt == {m \in 1..3 : DefsOf(m) # <<>>}
Imports(m) ==
  LET from(o) == SetToSeq(Needs(m) \cap Defined(o))
      right == SelectSeq([o \in 1..3 |-> [names |-> IF o = m THEN <<>> ELSE from(o), from |-> ModuleNames[o]]], LAMBDA i : i.names # <<>>)
  IN  CASE fault = "drop" /\ right # <<>> -> Tail(right)
        [] fault = "name" /\ right # <<>> -> [right EXCEPT ![1].names = Append(@, "Nothing")]
        [] fault = "module" /\ right # <<>> -> [right EXCEPT ![1].from = "Nowhere"]
        [] fault = "here" /\ right # <<>> -> Append(right, [names |-> <<DefsOf(m)[1].n>>, from |-> ModuleNames[3]])
        [] OTHER -> right
More(m) == IF fault = "twice" /\ m = 2 THEN <<defs[1]>> ELSE <<>>
Modules == LET ms == SelectSeq([m \in 1..3 |-> IF m \in Dealt THEN <<Module(ModuleNames[m], Imports(m), DefsOf(m) \o More(m))>> ELSE <<>>], LAMBDA x : x # <<>>)
           IN  Flatten(ms)

\* Resolving
TheEnv == Env(One(defs))
Only(S) == [n \in S |-> TheEnv[n]]
Resolve == /\ phase = "resolve"
           /\ \E n \in DOMAIN TheEnv \ known : Uses(TheEnv[n]) \subseteq known /\ known' = known \cup {n}
           /\ UNCHANGED <<defs, deal, fault, phase, way, rank, types>>
Next == Write \/ Turn \/ Resolve
Spec == Init /\ [][Next]_vars

Result(env, n) == IF env[n].d = "type" THEN Type(env, env[n].ty, Fuel) ELSE ValueDef(env, env[n])
\* What is known of a definition does not depend on what is not known yet.
Confluent == phase = "resolve" => \A n \in known : Result(Only(known), n) = Result(TheEnv, n)
\* All is resolved in the end, or there is a circle or a reference to nothing.
Stuck == (phase = "resolve" /\ ~\E n \in DOMAIN TheEnv \ known : Uses(TheEnv[n]) \subseteq known) =>
            \/ known = DOMAIN TheEnv
            \/ Circular(TheEnv)
            \/ \E n \in DOMAIN TheEnv : ~(Uses(TheEnv[n]) \subseteq DOMAIN TheEnv)
\* A range of numbers applied to what is no INTEGER: not looked at here.
IllKinded == \E d \in Range(defs) : d.d = "type" /\ d.ty.k = "ref" /\ d.ty.cons # <<>> /\
                LET t == Chased(TheEnv, d.ty, Fuel) IN ~Failed(t) /\ t.x.k \in {"oct", "bit", "str", "of"}
Told == (phase = "resolve" /\ known = {} /\ ~IllKinded) => Tell(Modules)
=============================================================================
