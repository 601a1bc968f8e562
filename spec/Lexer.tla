------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexical items of ASN.1 (X.680 clause 12), as far as the compiler    *)
(* supports them, read character by character.                             *)
(*                                                                         *)
(* A text is a sequence of code points.  The reader is in a mode m, has    *)
(* the item it is in (kind aside) in lex, which began at line sl, column   *)
(* sc, stands at line, col (from 1, 0), and has read the items toks.       *)
(* v is the verdict: "ok", "err": the text is to be refused, "free": it is *)
(* not ASN.1, but in a way that may be accepted or refused.                *)
(*                                                                         *)
(* Comments are not items.  A "-" directly before digits is taken to       *)
(* belong to the number, "@" together with the component names it refers   *)
(* to and "&" with its name are one item.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Alpha(c) == c \in 65..90 \/ c \in 97..122
Alnum(c) == Alpha(c) \/ Digit(c)
Hex(c) == Digit(c) \/ c \in 65..70
LF == 10
Blank(c) == c \in {9, 11, 12, 13, 32}
White(c) == Blank(c) \/ c = LF
Newline(c) == c \in {10, 11, 12, 13}                      \* 12.1.6
Dash == 45
Dot == 46
Colon == 58
Quote == 34
Tick == 39
BOM == 65279

Single == (123 :> "CurlyBegin") @@ (125 :> "CurlyEnd") @@ (40 :> "RoundBegin") @@ (41 :> "RoundEnd")
       @@ (33 :> "ExceptionMarker") @@ (59 :> "SemiColon") @@ (44 :> "Comma") @@ (124 :> "SetUnionToken")
       @@ (94 :> "SetIntersectionToken") @@ (60 :> "LessThan")
IsSingle(c) == c \in {123, 125, 40, 41, 33, 59, 44, 124, 94, 60}

CONSTANT Reserved                       \* 12.38: the reserved words, as sequences of code points

Init0 == [m |-> "top", lex |-> <<>>, sl |-> 1, sc |-> 0, line |-> 1, col |-> 0, toks |-> <<>>, v |-> "ok"]

Item(k, s) == [k |-> k, l |-> s.sl, c |-> s.sc, t |-> s.lex]
Wrong(s, v) == IF s.v = "err" THEN s ELSE [s EXCEPT !.v = v]
\* The item that s is in has ended (before the character to come).
Done(s, k) == [s EXCEPT !.m = "top", !.lex = <<>>, !.toks = Append(@, Item(k, s))]
\* The next character c belongs to the item.
Take(s, c, m) == [s EXCEPT !.m = m, !.lex = Append(@, c), !.col = @ + 1]
Begin(s, c, m) == [s EXCEPT !.m = m, !.lex = <<c>>, !.sl = s.line, !.sc = s.col, !.col = @ + 1]
Move(s, c) == IF c = LF THEN [s EXCEPT !.line = @ + 1, !.col = 0]
              ELSE IF c = BOM THEN s ELSE [s EXCEPT !.col = @ + 1]

WordKind(t) == IF t[1] = 38 THEN "AndIdentifier" ELSE IF t \in Reserved THEN "Keyword" ELSE "Identifier"

\* In the middle of no item.
Top(s, c) ==
  CASE White(c) \/ c = BOM -> Move(s, c)
    [] IsSingle(c) -> Done(Begin(s, c, "top"), Single[c])
    [] Alpha(c) -> Begin(s, c, "word")
    [] Digit(c) -> Begin(s, c, "number")
    [] c = 38 -> Begin(s, c, "and")
    [] c = 64 -> Begin(s, c, "at")
    [] c = Dash -> Begin(s, c, "dash")
    [] c = Dot -> Begin(s, c, "dot")
    [] c = Colon -> Begin(s, c, "colon")
    [] c = 91 -> Begin(s, c, "open")
    [] c = 93 -> Begin(s, c, "close")
    [] c = Quote -> Begin(s, c, "string")
    [] c = Tick -> Begin(s, c, "binary")
    [] OTHER -> Wrong(s, "err")

\* A word of which one "-" was the last character: it belongs to the word if a letter or digit
\* follows; it begins a comment if there is another one.
Undash(s) == [s EXCEPT !.lex = Front(@), !.col = @ - 1]
Comment(s) == [s EXCEPT !.m = "comment", !.lex = <<>>, !.col = @ + 2]

\* White space is of no significance next to a newline in a string (12.14) and nowhere in a binary
\* or hexadecimal one (12.10, 12.12).
RECURSIVE TrimEnd(_)
TrimEnd(t) == IF t # <<>> /\ White(Last(t)) THEN TrimEnd(Front(t)) ELSE t

BinaryText(t) == SelectSeq(t, LAMBDA c : ~White(c))
BinaryEnd(s, c) ==
  LET t == BinaryText(s.lex)
      inner == SubSeq(t, 2, Len(t) - 1)
      u == [s EXCEPT !.lex = t, !.col = @ + 1]
      all(P(_)) == \A i \in DOMAIN inner : P(inner[i])
  IN  CASE c \in {66, 98} -> IF all(LAMBDA x : x \in {48, 49}) THEN Wrong(Done(u, "BitString"), IF c = 66 THEN s.v ELSE "free")
                             ELSE Wrong(u, "err")
        [] c \in {72, 104} -> IF all(Hex) THEN Wrong(Done(u, "HexString"), IF c = 72 THEN s.v ELSE "free")
                              ELSE IF all(LAMBDA x : Hex(x) \/ x \in 97..102) THEN Wrong(u, "free") ELSE Wrong(u, "err")
        [] OTHER -> Wrong(u, "err")

\* No more characters belong to the item.
End(s) ==
  CASE s.m = "word" -> Done(s, WordKind(s.lex))
    [] s.m = "worddash" -> Wrong(s, "err")
    [] s.m = "number" -> Done(s, "NumberInt")
    [] s.m = "and" -> Wrong(s, "err")
    [] s.m = "dash" -> Wrong(s, "err")
    [] s.m = "at" -> IF Last(s.lex) \in {Dot, Dash} THEN Wrong(s, "err")
                     ELSE IF Len(s.lex) = 1 THEN Wrong(s, "free") ELSE Done(s, "AtComponentIdList")
    [] s.m = "dot" -> Done(s, CASE Len(s.lex) = 1 -> "Dot" [] Len(s.lex) = 2 -> "RangeSeparator" [] OTHER -> "Extension")
    [] s.m = "colon" -> IF Len(s.lex) = 1 THEN Done(s, "Colon") ELSE Wrong(s, "err")
    [] s.m = "open" -> Done(s, IF Len(s.lex) = 1 THEN "SquareBegin" ELSE "AdditionGroupsBegin")
    [] s.m = "close" -> Done(s, IF Len(s.lex) = 1 THEN "SquareEnd" ELSE "AdditionGroupsEnd")
    [] s.m = "stringquote" -> Done(s, "TString")
    [] s.m \in {"string", "stringline", "binary", "binarytick"} -> Wrong(s, "err")
    [] s.m \in {"comment", "commentdash"} -> [s EXCEPT !.m = "top"]
    [] OTHER -> s

Ended(s, c) == LET e == End(s) IN IF e.v # "ok" THEN e ELSE Top(e, c)

Step(s, c) ==
  IF s.v # "ok" THEN s
  ELSE
  CASE s.m = "top" -> Top(s, c)
    [] s.m = "word" -> IF Alnum(c) THEN Take(s, c, "word") ELSE IF c = Dash THEN Take(s, c, "worddash") ELSE Ended(s, c)
    [] s.m = "worddash" -> IF Alnum(c) THEN Take(s, c, "word")
                           ELSE IF c = Dash THEN LET w == Undash(s) IN Comment(Done(w, WordKind(w.lex)))
                           ELSE Wrong(s, "err")
    [] s.m = "number" -> IF Digit(c) THEN Take(s, c, "number") ELSE Ended(s, c)
    [] s.m = "and" -> IF Alpha(c) THEN Take(s, c, "word")
                      ELSE IF Digit(c) \/ c = Dash THEN Wrong(s, "free") ELSE Wrong(s, "err")
    [] s.m = "at" -> IF Alnum(c) \/ c = Dot
                     THEN IF (c = Dot /\ Last(s.lex) = Dot) \/ (Last(s.lex) = Dash /\ c = Dot) \/ (~Alpha(c) /\ ~(c = Dot) /\ Last(s.lex) \in {64, Dot})
                          THEN Wrong(s, "free") ELSE Take(s, c, "at")
                     ELSE IF c = Dash THEN IF Last(s.lex) = Dash THEN Comment(Done(Undash(s), "AtComponentIdList"))
                                           ELSE IF Last(s.lex) \in {64, Dot} THEN Wrong(s, "free") ELSE Take(s, c, "at")
                     ELSE Ended(s, c)
    [] s.m = "dash" -> IF c = Dash THEN [Comment(s) EXCEPT !.col = s.col + 1]
                       ELSE IF Digit(c) THEN Take(s, c, "number") ELSE Wrong(s, "err")
    [] s.m = "dot" -> IF c = Dot /\ Len(s.lex) < 3 THEN Take(s, c, "dot") ELSE Ended(s, c)
    [] s.m = "colon" -> IF c = Colon /\ Len(s.lex) = 1 THEN Take(s, c, "colon")
                        ELSE IF c = 61 /\ Len(s.lex) = 2 THEN Done(Take(s, c, "top"), "Assignment")
                        ELSE Ended(s, c)
    [] s.m = "open" -> IF c = 91 /\ Len(s.lex) = 1 THEN Take(s, c, "open") ELSE Ended(s, c)
    [] s.m = "close" -> IF c = 93 /\ Len(s.lex) = 1 THEN Take(s, c, "close") ELSE Ended(s, c)
    [] s.m = "string" -> CASE c = Quote -> Take(s, c, "stringquote")
                           [] c = LF -> Move([s EXCEPT !.m = "stringline", !.lex = TrimEnd(@)], c)
                           [] OTHER -> Take(s, c, "string")
    [] s.m = "stringline" -> CASE White(c) -> Move(s, c)
                               [] c = Quote -> Take(s, c, "stringquote")
                               [] OTHER -> Take(s, c, "string")
    [] s.m = "stringquote" -> IF c = Quote THEN Take(s, c, "string") ELSE Ended(s, c)
    [] s.m = "binary" -> IF c = Tick THEN Take(s, c, "binarytick") ELSE [Move(s, c) EXCEPT !.lex = Append(@, c)]
    [] s.m = "binarytick" -> BinaryEnd(s, c)
    [] s.m = "comment" -> IF c = Dash THEN [s EXCEPT !.m = "commentdash", !.col = @ + 1]
                          ELSE IF Newline(c) THEN Move([s EXCEPT !.m = "top"], c)
                          ELSE [s EXCEPT !.col = @ + 1]
    [] s.m = "commentdash" -> IF c = Dash THEN [s EXCEPT !.m = "top", !.col = @ + 1]
                              ELSE IF Newline(c) THEN Move([s EXCEPT !.m = "top"], c)
                              ELSE [s EXCEPT !.m = "comment", !.col = @ + 1]

Finish(s) == IF s.v # "ok" THEN s ELSE End(s)
Lex(text) == Finish(FoldLeft(Step, Init0, text))
=============================================================================
