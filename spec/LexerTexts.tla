----------------------------- MODULE LexerTexts -----------------------------
(***************************************************************************)
(* All texts of up to Most of the Pieces, read by Lexer. The reader's      *)
(* state after a text is reached from that of the text without its last    *)
(* piece, so that each state is one text. Told prints what the items of    *)
(* the text are.                                                           *)
(***************************************************************************)
EXTENDS Lexer, Json

CONSTANTS Pieces, Most, Emit
VARIABLES text, n, s

Init == text = <<>> /\ n = 0 /\ s = Init0
Next == n < Most /\ \E p \in Pieces : text' = text \o p /\ n' = n + 1 /\ s' = FoldLeft(Step, s, p)
Spec == Init /\ [][Next]_<<text, n, s>>

Before(a, b) == a.l < b.l \/ (a.l = b.l /\ a.c < b.c)
\* The number of characters before line l, column c.
Offset(l, c) ==
  LET r == FoldLeft(LAMBDA a, i : IF a.done \/ (a.line = l /\ a.col = c /\ text[i] # BOM) THEN [a EXCEPT !.done = TRUE]
                                 ELSE IF text[i] = LF THEN [a EXCEPT !.line = @ + 1, !.col = 0, !.n = @ + 1]
                                 ELSE IF text[i] = BOM THEN [a EXCEPT !.n = @ + 1] ELSE [a EXCEPT !.col = @ + 1, !.n = @ + 1],
                    [line |-> 1, col |-> 0, n |-> 0, done |-> FALSE], [i \in 1..Len(text) |-> i])
  IN  r.n
F == Finish(s)
Good == F.v = "ok"
\* Items stand one after the other.
Ordered == \A i \in 1..(Len(s.toks) - 1) : Before(s.toks[i], s.toks[i + 1])
\* What an item consists of stands where it says (strings may have lost white space).
Verbatim(k) == k \notin {"TString", "BitString", "HexString"}
Placed == (Good /\ BOM \notin Range(text)) =>
            \A i \in DOMAIN F.toks : LET x == F.toks[i] IN LET o == Offset(x.l, x.c) IN
              /\ o < Len(text) /\ text[o + 1] = x.t[1]
              /\ Verbatim(x.k) => SubSeq(text, o + 1, o + Len(x.t)) = x.t
\* The items, with blanks between them, are read as the same items.
Bare(toks) == [i \in DOMAIN toks |-> [k |-> toks[i].k, t |-> toks[i].t]]
Rendered(x) == x.t \o (IF x.k = "BitString" THEN <<66>> ELSE IF x.k = "HexString" THEN <<72>> ELSE <<>>) \o <<32>>
Stable == Good => LET again == Lex(FoldLeft(LAMBDA a, x : a \o Rendered(x), <<>>, F.toks)) IN again.v = "ok" /\ Bare(again.toks) = Bare(F.toks)
\* Nothing but blanks and comments is lost.
Kept == (Good /\ \A i \in DOMAIN text : text[i] # Dash) => LET some == {i \in DOMAIN text : ~White(text[i]) /\ text[i] # BOM} IN some # {} => F.toks # <<>>

Row(x) == <<x.k, x.l, x.c, x.t>>
Told == Emit => PrintT("L " \o ToJson([t |-> text, v |-> F.v, r |-> IF Good THEN [i \in DOMAIN F.toks |-> Row(F.toks[i])] ELSE <<>>]))
=============================================================================
