-------------------------- MODULE Asn1SessionTrace --------------------------
(***************************************************************************)
(* What compilers did, event by event, checked against Asn1Session.  The   *)
(* events of all histories and of processes of their own follow each other *)
(* in one trace, so the code for the same modules is the same in all.      *)
(*   new, file, resolve, generate: as in Asn1Session, v and, for generate, *)
(*     out: what the code is (the same number for the same text)           *)
(*   process: a process of its own was given the files at once             *)
(*   code: the items that the code out defines, in order, and uses         *)
(***************************************************************************)
EXTENDS Asn1Session

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
CONSTANT Known      \* what code may use without defining it

VARIABLES i, at,        \* the next event; the compilers
          code,         \* the code seen for a set of modules
          wrong         \* whether an event was not as it has to be
tvars == <<i, at, code, wrong, slot, log, made>>

TInit == i = 1 /\ at = [s \in 1..Slots |-> None] /\ code = <<>> /\ wrong = FALSE /\ slot = <<>> /\ log = <<>> /\ made = 0

Consistent(files, out) == ModulesOf(files) \in DOMAIN code => code[ModulesOf(files)] = out
Seen(files, out) == IF ModulesOf(files) \in DOMAIN code THEN code ELSE code @@ (ModulesOf(files) :> out)

\* Files given to a process, one after the other.
GivenAll(files) == FoldLeft(LAMBDA c, f : IF c.at = "none" THEN c ELSE Add(c, f), Make, files)
Ends(files) == LET c == GivenAll(files) IN c.at # "none" /\ Resolvable(files)

Once(seq) == Cardinality(ToSet(seq)) = Len(seq)

V(ok) == IF ok THEN "ok" ELSE "err"
Bad == [at |-> "bad", files |-> <<>>]

TNext ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ UNCHANGED <<slot, log, made>>
  /\ LET ev == Trace[i]
         c == IF ev.e \in {"process", "code"} THEN None ELSE at[ev.s]
         good(ok) ==
           /\ at' = [at EXCEPT ![ev.s] = IF c.at = "bad" THEN (IF ev.e = "new" THEN Make ELSE Bad) ELSE IF ~ok THEN Bad
                      ELSE CASE ev.e = "new" -> Make [] ev.e = "file" -> Add(c, ev.f) [] ev.e = "resolve" -> Resolve(c) [] ev.e = "generate" -> None]
           /\ wrong' = (~ok /\ (c.at # "bad" \/ ev.e = "new"))
     IN CASE ev.e = "new" -> good(TRUE) /\ UNCHANGED code
          [] ev.e = "file" -> good(c.at = "open" /\ ev.v = V(Addable(c.files, ev.f))) /\ UNCHANGED code
          [] ev.e = "resolve" -> good(c.at = "open" /\ ev.v = V(Resolvable(c.files))) /\ UNCHANGED code
          [] ev.e = "generate" ->
               /\ good(c.at = "resolved" /\ ev.v = "ok" /\ Consistent(c.files, ev.out))
               /\ code' = IF c.at = "resolved" /\ ev.v = "ok" THEN Seen(c.files, ev.out) ELSE code
          [] ev.e = "process" ->
               /\ wrong' = ~(ev.v = V(Ends(ev.files)) /\ (ev.v = "ok" => Consistent(ev.files, ev.out)))
               /\ code' = IF ev.v = "ok" THEN Seen(ev.files, ev.out) ELSE code
               /\ UNCHANGED at
          [] ev.e = "code" ->
               /\ wrong' = ~(/\ Once(ev.defs)
                             /\ ToSet(ev.uses) \subseteq ToSet(ev.defs) \cup ToSet(Known)
                             /\ \E s \in DOMAIN code : code[s] = ev.out
                             /\ \A s \in DOMAIN code : code[s] = ev.out => UNION {ToSet(Mod(p).types) : p \in s} \subseteq ToSet(ev.defs))
               /\ UNCHANGED <<at, code>>
TSpec == TInit /\ [][TNext]_tvars
TTold == (wrong => PrintT("M " \o ToString(i - 1))) /\ (i = Len(Trace) + 1 => PrintT("E " \o ToString(i - 1)))
=============================================================================
