----------------------------- MODULE LexerTrace -----------------------------
(* Texts and the items the compiler found in them, checked against Lexer.  *)
EXTENDS Lexer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES n, read
Init == n \in 1..Len(Traces) /\ read = FALSE
Next == ~read /\ read' = TRUE /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, read>>

Row(x) == <<x.k, x.l, x.c, x.t>>
Accepts(tr) ==
  LET f == Lex(tr.t)
  IN  CASE f.v = "free" -> TRUE
        [] f.v = "err" -> tr.v = "err"
        [] f.v = "ok" -> tr.v = "ok" /\ tr.r = [i \in DOMAIN f.toks |-> Row(f.toks[i])]
Told == read => PrintT((IF Accepts(Traces[n]) THEN "D " ELSE "M ") \o ToString(n))
=============================================================================
