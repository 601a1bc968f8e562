---------------------------- MODULE Asn1Session ----------------------------
(***************************************************************************)
(* The life of compilers in one process.  One is made, is given files,     *)
(* resolves the modules in them and generates code.  Several of them live  *)
(* at the same time, their steps come in any order, and others lived       *)
(* before them.  What one of them makes is a function of the modules it    *)
(* was given: not of the order in which they came, not of the others, not  *)
(* of what happened before, not of chance.                                 *)
(*                                                                         *)
(* A file is a sequence of modules                                         *)
(*   [n, defs: the names defined, imports: <<module, name>>,               *)
(*    bad: something in it cannot be resolved], and may be broken.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Files == JsonDeserialize(IOEnv.FILES)

ASSUME \A f \in DOMAIN Files : Files[f].broken \in BOOLEAN

ModulesOf(files) == UNION {{<<f, k>> : k \in DOMAIN Files[f].mods} : f \in ToSet(files)}
Mod(p) == Files[p[1]].mods[p[2]]
Names(ps) == {Mod(p).n : p \in ps}
Defined(m) == ToSet(m.defs)

\* A file can be added: it is understood, and its modules are not there yet.
Addable(files, f) ==
  LET ms == Files[f].mods
  IN  /\ ~Files[f].broken
      /\ \A a, b \in DOMAIN ms : ms[a].n = ms[b].n => a = b
      /\ \A k \in DOMAIN ms : ms[k].n \notin Names(ModulesOf(files))

\* All that is imported is there, and nothing is wrong with any module.
Resolvable(files) ==
  LET ps == ModulesOf(files)
  IN  \A p \in ps :
        /\ ~Mod(p).bad
        /\ \A i \in ToSet(Mod(p).imports) : \E q \in ps : q # p /\ Mod(q).n = i[1] /\ i[2] \in Defined(Mod(q))

\* The types that the code has to define.
Types(files) == UNION {ToSet(Mod(p).types) : p \in ModulesOf(files)}

\* A compiler after each of its steps; "none" before it is made, and after it failed or is done.
None == [at |-> "none", files |-> <<>>]
Make == [at |-> "open", files |-> <<>>]
Add(c, f) == IF Addable(c.files, f) THEN [c EXCEPT !.files = Append(@, f)] ELSE None
Resolve(c) == IF Resolvable(c.files) THEN [c EXCEPT !.at = "resolved"] ELSE None

CONSTANTS Pool,        \* the files that are used
          Slots,       \* how many compilers live at a time
          Most,        \* how many live in all
          MostFiles    \* how many files each of them gets at most

VARIABLES slot, log, made
vars == <<slot, log, made>>
Init == slot = [s \in 1..Slots |-> None] /\ log = <<>> /\ made = 0

Goes(s, c, e, f, ok) ==
  /\ slot' = [slot EXCEPT ![s] = c]
  /\ log' = Append(log, [e |-> e, s |-> s, f |-> f, v |-> IF ok THEN "ok" ELSE "err", given |-> slot[s].files])

Next ==
  \E s \in 1..Slots :
    \/ /\ slot[s].at = "none"
       /\ made < Most
       /\ \A k \in 1..s - 1 : slot[k].at # "none"
       /\ Goes(s, Make, "new", 0, TRUE)
       /\ made' = made + 1
    \/ /\ slot[s].at = "open"
       /\ Len(slot[s].files) < MostFiles
       /\ \E f \in Pool : Goes(s, Add(slot[s], f), "file", f, Addable(slot[s].files, f))
       /\ UNCHANGED made
    \/ /\ slot[s].at = "open"
       /\ slot[s].files # <<>>
       /\ Goes(s, Resolve(slot[s]), "resolve", 0, Resolvable(slot[s].files))
       /\ UNCHANGED made
    \/ /\ slot[s].at = "resolved"
       /\ Goes(s, None, "generate", 0, TRUE)
       /\ UNCHANGED made
Spec == Init /\ [][Next]_vars

Outcomes == {i \in DOMAIN log : log[i].e \in {"resolve", "generate"}}
\* The same modules, in whatever order and files: the same outcome and the same code.
Function ==
  \A i, j \in Outcomes :
    /\ log[i].e = log[j].e
    /\ ModulesOf(log[i].given) = ModulesOf(log[j].given)
    => log[i].v = log[j].v /\ Types(log[i].given) = Types(log[j].given)
\* A compiler only knows what it was given.
Own ==
  \A s \in 1..Slots : \A k \in DOMAIN slot[s].files :
    \E i \in DOMAIN log : log[i].e = "file" /\ log[i].s = s /\ log[i].f = slot[s].files[k] /\ log[i].v = "ok"

Ended == made = Most /\ \A s \in 1..Slots : slot[s].at = "none"
Told == Ended => PrintT("S " \o ToJson([i \in DOMAIN log |-> <<log[i].e, log[i].s, log[i].f>>]))
=============================================================================
