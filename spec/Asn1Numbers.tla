----------------------------- MODULE Asn1Numbers -----------------------------
(***************************************************************************)
(* Ranges between numbers around all the limits of the integer types: the  *)
(* type that is chosen has to hold what is admitted, in the root and in    *)
(* the additions.                                                          *)
(***************************************************************************)
EXTENDS Asn1Told

CONSTANTS Near,       \* how far around the limits
          Contexts

VARIABLES lo, hi, add, Context, done
vars == <<lo, hi, add, Context, done>>

Limits == {0, 128, 256, P15, P16, P31, P32, P63, P64, -128, -256, M15, M31, M63, M64, P126, M126}
Around == {l + d : l \in Limits, d \in (-Near)..Near}
Init == lo = None /\ hi = None /\ add = None /\ done = FALSE /\ Context \in Contexts
Next == /\ ~done
        /\ \/ lo = None /\ hi = None /\ \E a \in Around : lo' = Some(a) /\ UNCHANGED <<hi, add>>
           \/ lo # None /\ hi = None /\ \E a \in Around : a >= lo[1] /\ hi' = Some(a) /\ UNCHANGED <<lo, add>>
           \/ hi # None /\ add = None /\ (lo[1] + hi[1]) % 7 = 0 /\ \E a \in Limits : add' = Some(a) /\ UNCHANGED <<lo, hi>>
           \/ UNCHANGED <<lo, hi, add>>
        /\ done' = (lo' = lo /\ hi' = hi /\ add' = add)
        /\ UNCHANGED Context
Spec == Init /\ [][Next]_vars

Limited == LET root == IF lo = None THEN <<>>
                    ELSE IF hi = None THEN <<Rng(I(lo[1]), [m |-> "MAX"])>>
                    ELSE IF lo = hi THEN <<V(I(lo[1]))>> ELSE <<Rng(I(lo[1]), I(hi[1]))>>
        IN  IF root = <<>> THEN <<>> ELSE <<[Con(<<root>>) EXCEPT !.x = add # None, !.a = Map(add, LAMBDA a : <<<<V(I(a))>>>>)]>>
Modules ==
  CASE Context = "def"   -> One(<<Def("T", Integer(Limited))>>)
    [] Context = "comp"  -> One(<<Def("T", Seq_(<<C("a", Integer(Limited), ""), C("b", Ref("U"), "O")>>)), Def("U", Of(<<>>, Integer(Limited)))>>)
    [] Context = "value" -> One((IF lo = None THEN <<>> ELSE <<Val("low", I(lo[1]))>>) \o (IF hi = None THEN <<>> ELSE <<Val("high", I(hi[1]))>>) \o
                                <<Def("T", Integer(IF Limited = <<>> \/ hi = None THEN <<>> ELSE <<[Limited[1] EXCEPT !.u = <<<<Rng(R("low"), R("high"))>>>>]>>))>>)
Told == done => Tell(Modules)

\* What is chosen holds all that is admitted, and there is nothing to choose only if nothing could.
Held == done => LET r == IntType(Env(Modules), Limited)
                    all == {lo[i] : i \in DOMAIN lo} \cup {hi[i] : i \in DOMAIN hi} \cup {add[i] : i \in DOMAIN add}
                IN  IF Failed(r) THEN ~\E h \in DOMAIN Holders : \A a \in all : Holders[h][1] <= a /\ a <= Holders[h][2]
                    ELSE r.x.h # {} /\ (hi # None => \A h \in r.x.h : \A a \in all : Holders[h][1] <= a /\ a <= Holders[h][2])
=============================================================================
