------------------------------ MODULE Asn1Wire ------------------------------
(***************************************************************************)
(* What is sent for the types of ASN.1 modules: the definitions, as Asn1   *)
(* compiles them, as types of AperTypes.  Names are kept, as they are what *)
(* the user of the generated code sees; the limits of what holds a number  *)
(* are left to the generated code.                                         *)
(***************************************************************************)
EXTENDS Asn1, Json, IOUtils

Cases == JsonDeserialize(IOEnv.MODULES)
VARIABLE i
Init == i \in DOMAIN Cases
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i

Kind(k) == CASE k = "VisibleString" -> "vis" [] k = "PrintableString" -> "prt" [] k = "UTF8String" -> "utf" [] OTHER -> k
RECURSIVE Wire(_, _)
\* x: the type; all: those of all names
Wire(x, all) ==
  CASE x.k \in {"bool", "null", "oid"} -> [t |-> x.k]
    [] x.k = "int"  -> [t |-> "int", lb |-> x.lb, ub |-> x.ub, ext |-> x.ext]
    [] x.k = "enum" -> [t |-> "enum", lb |-> Some(0), ub |-> Some(Len(x.names) - 1), ext |-> x.ext, names |-> x.names]
    [] x.k \in {"bit", "oct"} -> [t |-> x.k, lb |-> x.lb, ub |-> x.ub, ext |-> x.ext]
    [] x.k = "str"  -> [t |-> Kind(x.kind), lb |-> x.lb, ub |-> x.ub, ext |-> x.ext]
    [] x.k = "of"   -> [t |-> "seqof", lb |-> x.lb, ub |-> x.ub, ext |-> x.ext, of |-> Wire(x.of, all)]
    [] x.k = "seq"  -> [t |-> "seq", ext |-> x.ext, c |-> Map(x.comps, LAMBDA c : [n |-> c.n, opt |-> c.opt, key |-> c.key, ty |-> Wire(c.ty, all)])]
    [] x.k = "choice" -> [t |-> "choice", ext |-> x.ext, ub |-> Len(x.root) - 1,
                          a |-> [j \in DOMAIN x.root |-> [n |-> x.root[j].n, k |-> j - 1, x |-> FALSE, ty |-> Wire(x.root[j].ty, all)]]
                             \o [j \in DOMAIN x.adds |-> [n |-> x.adds[j].n, k |-> j - 1, x |-> TRUE, ty |-> Wire(x.adds[j].ty, all)]]]
    [] x.k = "open" -> [t |-> "open", a |-> Map(x.alts, LAMBDA a : [k |-> a.key, ty |-> Wire(a.ty, all)])]
    [] x.k = "ref"  -> Wire(all[x.n], all)

Compiled == Compile(Cases[i])
Told == LET r == Compiled
        IN  IF r.v = "err" \/ "any" \in DOMAIN r THEN PrintT("W " \o ToJson([i |-> i, v |-> r.v, any |-> "any" \in DOMAIN r, x |-> <<>>, w |-> <<>>]))
            ELSE PrintT("W " \o ToJson([i |-> i, v |-> r.v, any |-> FALSE, x |-> r.x, w |-> [n \in DOMAIN r.x |-> Wire(r.x[n], r.x)]]))

\* Two definitions of a type, one by a reference to the other, are sent alike.
Transparent == LET r == Compiled
               IN  r.v # "err" /\ "any" \notin DOMAIN r =>
                     \A n \in DOMAIN r.x : r.x[n].k = "ref" => Wire(r.x[n], r.x) = Wire(r.x[r.x[n].n], r.x)
=============================================================================
