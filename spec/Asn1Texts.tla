------------------------------ MODULE Asn1Texts ------------------------------
(***************************************************************************)
(* Texts of which nothing is known: lexical items put at the hole of a     *)
(* text, and texts in which items are lost, doubled, swapped, replaced or  *)
(* put in, or which end too early.  Compiling ends with code or an error,  *)
(* and code has all that the text defines.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Texts,       \* a sequence of [pre, post: the text on both sides of the hole, some: what is put there]
          Alphabet,    \* items to put in and to replace with
          TypeNames,   \* the items that may be names of types
          Most,        \* how many items or edits
          Edit,        \* is it edited, or filled
          Sampled      \* is one place drawn for every step, or are all of them taken

VARIABLES which, t, n
vars == <<which, t, n>>

Init == /\ which \in DOMAIN Texts
        /\ t = IF Edit THEN Texts[which].pre \o Texts[which].post ELSE <<>>
        /\ n = 0
Fill == ~Edit /\ \E i \in DOMAIN Texts[which].some : t' = Append(t, Texts[which].some[i])
Put(i, a) == SubSeq(t, 1, i - 1) \o a \o SubSeq(t, i, Len(t))
Lose(i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Places(s) == IF Sampled /\ s # <<>> THEN {RandomElement(DOMAIN s)} ELSE DOMAIN s
Change == Edit /\ \E i \in Places(t) :
            \/ t' = Lose(i)
            \/ t' = Put(i, <<t[i]>>)
            \/ i < Len(t) /\ t' = [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]]
            \/ t' = SubSeq(t, 1, i)
            \/ \E a \in (IF Sampled THEN {RandomElement(DOMAIN Alphabet)} ELSE DOMAIN Alphabet) : t' = [t EXCEPT ![i] = Alphabet[a]] \/ t' = Put(i, <<Alphabet[a]>>)
            \/ i < Len(t) /\ t' = SubSeq(t, 1, i) \o SubSeq(t, (i + 1) + ((i * 7) % (Len(t) - i)), Len(t))
Next == n < Most /\ n' = n + 1 /\ (Fill \/ Change) /\ UNCHANGED which
Spec == Init /\ [][Next]_vars

Whole == IF Edit THEN t ELSE Texts[which].pre \o t \o Texts[which].post
\* A name of a type before the sign of an assignment, and it is neither a class nor a set of values or objects.
Promised == LET w == Whole IN {w[i - 1] : i \in {j \in 2..(Len(w) - 1) : w[j] = "::=" /\ w[j - 1] \in TypeNames /\ w[j + 1] \notin {"{", "CLASS"}}}
Told == n > 0 => PrintT("W " \o ToJson([t |-> Whole, p |-> SetToSeq(Promised)]))
\* Nothing that is promised has to be guessed: it is in the text.
Honest == Promised \subseteq Range(Whole)
=============================================================================
