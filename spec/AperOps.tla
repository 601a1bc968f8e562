------------------------------- MODULE AperOps -------------------------------
(***************************************************************************)
(* The operations of the codec library: one record per call, and what the  *)
(* call does to the buffer, as given by Aper.                              *)
(*                                                                         *)
(*  op    the function        lb, ub  bounds         ext  extension marker *)
(*  v     the value           xt      value declared to be an extension    *)
(***************************************************************************)
EXTENDS Aper

\* One operation; n is used by lengths (value) and preambles (bitmap length).
Op(op, lb, ub, ext, v, xt) == [op |-> op, lb |-> lb, ub |-> ub, ext |-> ext, v |-> v, xt |-> xt]

EncOp(b, o) ==
  CASE o.op = "int"  -> EncInteger(b, o.lb, o.ub, o.ext, o.v, o.xt)
    [] o.op = "enum" -> EncIndex(b, o.lb, o.ub, o.ext, o.v, o.xt)
    [] o.op = "idx"  -> EncIndex(b, o.lb, o.ub, o.ext, o.v, o.xt)
    [] o.op = "bool" -> EncBool(b, o.v)
    [] o.op = "hdr"  -> EncSeqHeader(b, o.ext, o.v, o.xt)
    [] o.op = "len"  -> EncLen(b, o.lb, o.ub, o.v)
    [] o.op = "nslen" -> EncSmallLen(b, o.v)
    [] o.op = "bit"  -> EncBitString(b, o.lb, o.ub, o.ext, o.v, o.xt)
    [] o.op = "oct"  -> EncOctetString(b, o.lb, o.ub, o.ext, o.v, o.xt)
    [] o.op = "vis"  -> EncChars(b, o.lb, o.ub, o.ext, o.v, o.xt)
    [] o.op = "prt"  -> EncChars(b, o.lb, o.ub, o.ext, o.v, o.xt)
    [] o.op = "utf"  -> EncUtf8(b, o.lb, o.ub, o.ext, o.v, o.xt)
    [] o.op = "app"  -> W(AppendAligned(b, o.v))           \* v: the bits appended
    [] o.op = "fill" -> W(b \o o.v)                        \* v: bits, one by one

DecOp(b, p, o) ==
  CASE o.op = "int"  -> DecInteger(b, p, o.lb, o.ub, o.ext)
    [] o.op = "enum" -> DecIndex(b, p, o.lb, o.ub, o.ext)
    [] o.op = "idx"  -> DecIndex(b, p, o.lb, o.ub, o.ext)
    [] o.op = "bool" -> DecBool(b, p)
    [] o.op = "hdr"  -> DecSeqHeader(b, p, o.ext, Len(o.v))
    [] o.op = "len"  -> DecLen(b, p, o.lb, o.ub)
    [] o.op = "nslen" -> DecSmallLen(b, p)
    [] o.op = "bit"  -> DecBitString(b, p, o.lb, o.ub, o.ext)
    [] o.op = "oct"  -> DecOctetString(b, p, o.lb, o.ub, o.ext)
    [] o.op = "vis"  -> DecChars(b, p, o.lb, o.ub, o.ext)
    [] o.op = "prt"  -> DecChars(b, p, o.lb, o.ub, o.ext)
    [] o.op = "utf"  -> DecUtf8(b, p)
    [] o.op = "app"  -> LET a == AlignDec(b, p)
                        IN  IF ~a.ok THEN Bad
                            ELSE LET n == Len(PadTo8(o.v)) IN TakeBits(b, a.p, n)
    [] o.op = "align" -> AlignDec(b, p)
    [] o.op = "fill" -> TakeBits(b, p, Len(o.v))

\* What decoding has to return for a value written by o.
Expected(o) ==
  CASE o.op \in {"int", "enum", "idx", "hdr"} -> [v |-> o.v, x |-> FALSE]
    [] o.op = "app" -> PadTo8(o.v)
    [] OTHER -> o.v

\* The values a constraint admits and the encoder supports: EncOp accepts exactly these.
Admits(o) ==
  CASE o.op \in {"int", "enum", "idx"} ->
         /\ ~o.xt
         /\ (Has(o.lb) => IntLE(Get(o.lb), o.v))
         /\ (Has(o.lb) /\ Has(o.ub) => IntLE(o.v, Get(o.ub)) /\ ~TooWide(Get(o.lb), Get(o.ub)))
         /\ (Has(o.lb) /\ ~Has(o.ub) => FitsI128(IntSub(o.v, Get(o.lb))))
    [] o.op = "hdr" -> ~o.xt
    [] o.op = "len" -> SizeOk(o.lb, o.ub, o.v) /\ (Constrained(o.ub) \/ o.v < K16)
    [] o.op = "nslen" -> o.v > 0 /\ o.v < K16
    [] o.op = "utf" -> ~o.xt /\ SizeOk(o.lb, o.ub, Utf8Chars(o.v)) /\ Len(o.v) < K16
    [] o.op \in {"bit", "oct"} -> ~o.xt /\ SizeOk(o.lb, o.ub, Len(o.v)) /\ Len(o.v) < K16
    [] o.op \in {"vis", "prt"} -> ~o.xt /\ SizeOk(o.lb, o.ub, Len(o.v)) /\ (Constrained(o.ub) \/ Len(o.v) < K16)
    [] OTHER -> TRUE

\* What a value returned by a successful decode has to satisfy (C08).
InConstraint(o, v) ==
  CASE o.op \in {"int", "enum", "idx"} ->
         /\ FitsI128(v.v)
         /\ (v.x => o.ext)
         /\ (~v.x /\ Has(o.lb) => IntLE(Get(o.lb), v.v))
         /\ (~v.x /\ Has(o.lb) /\ Has(o.ub) => IntLE(v.v, Get(o.ub)))
    [] o.op = "len" -> Constrained(o.ub) => SizeOk(o.lb, o.ub, v)
    [] o.op \in {"bit", "oct", "vis", "prt"} -> Constrained(o.ub) /\ ~o.ext => SizeOk(o.lb, o.ub, Len(v))
    [] OTHER -> TRUE
=============================================================================
