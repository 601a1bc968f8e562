"""A02: whatever the text is, compiling it ends with code or an error."""
import json, os, random, re, subprocess
import asn
from common import *
import compiler

HEAD = "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN"
TAIL = "A ::= NULL B ::= INTEGER ( 0 .. 9 ) v INTEGER ::= 3 END"
KLASS = "K ::= CLASS { &id INTEGER ( 0 .. 9 ) UNIQUE , &Type OPTIONAL } WITH SYNTAX { ID &id [ TYPE &Type ] }"
SET = "S K ::= { { ID 1 TYPE A } | o , ... } o K ::= { ID 2 TYPE BOOLEAN }"

G = """{ } ( ) [ ] [[ ]] , ; : ::= .. ... . | ^ < ! @ A T v a &id &Type K S o 0 5 -1 99999999999999999999999999999999999999999999 'AB'H "x"
 INTEGER SEQUENCE OF CHOICE ENUMERATED BOOLEAN NULL OCTET STRING BIT OBJECT IDENTIFIER UTF8String SIZE MIN MAX OPTIONAL DEFAULT TRUE CLASS UNIQUE WITH SYNTAX
 IMPORTS EXPORTS FROM BEGIN END DEFINITIONS CONTAINING SET REAL""".split()

# the hole is marked with _; then what is put there more of
HOLES = [
    ("_ BEGIN A ::= NULL END", "M DEFINITIONS AUTOMATIC TAGS ::= { } 1 id ( ) EXPLICIT IMPLICIT EXTENSIBILITY IMPLIED"),
    (HEAD + " _ END", "A T ::= NULL v INTEGER 5 { } BOOLEAN ; END BEGIN M"),
    (HEAD + " IMPORTS _ ; " + TAIL, "A C v FROM N M ; , { } 1"),
    (HEAD + " EXPORTS _ ; " + TAIL, "A C v ALL ; , { }"),
    (HEAD + " T ::= _ " + TAIL, "A INTEGER SEQUENCE { } ( ) OF a , ... SIZE 3 .. OPTIONAL"),
    (HEAD + " T ::= INTEGER ( _ ) " + TAIL, "0 5 -3 v .. < | ^ , ... ( ) MIN MAX SIZE INTEGER B"),
    (HEAD + " T ::= OCTET STRING ( SIZE ( _ ) ) " + TAIL, "0 5 -3 v .. < | , ... ( ) MAX 65536"),
    (HEAD + " T ::= PrintableString ( _ ) " + TAIL, "SIZE FROM ( ) \"a\" .. | ^ 5 , ... \"z\" ALL EXCEPT"),
    (HEAD + " T ::= SEQUENCE { _ } " + TAIL, "a A INTEGER , ... [[ ]] OPTIONAL DEFAULT 3 { } b SEQUENCE OF : 1"),
    (HEAD + " T ::= SEQUENCE { a A , ... , _ } " + TAIL, "b A , ... [[ ]] OPTIONAL DEFAULT 3 : 1 2 c"),
    (HEAD + " T ::= CHOICE { _ } " + TAIL, "a A INTEGER , ... [[ ]] { } b ! 3 NULL"),
    (HEAD + " T ::= ENUMERATED { _ } " + TAIL, "a b c ( ) 0 1 -1 v , ... { }"),
    (HEAD + " T ::= BIT STRING { _ } " + TAIL, "a b ( ) 0 1 -1 v , ... }"),
    (HEAD + " T ::= INTEGER { _ } " + TAIL, "a b ( ) 0 1 -1 v , ... }"),
    (HEAD + " T ::= SEQUENCE _ OF A " + TAIL, "( ) SIZE 5 .. v , ... OF SEQUENCE | B"),
    (HEAD + " T ::= OCTET STRING _ " + TAIL, "( ) CONTAINING A B SIZE 5 ENCODED BY , ..."),
    (HEAD + " T ::= P { _ } P { X , INTEGER : n } ::= SEQUENCE { a X , b INTEGER ( 0 .. n ) } " + TAIL, "A B v 5 , { } INTEGER S BOOLEAN : -1"),
    (HEAD + " T ::= P { A , 5 } P { _ } ::= SEQUENCE { a X , b INTEGER ( 0 .. n ) } " + TAIL, "X n INTEGER : , K S { } A"),
    (HEAD + " v2 _ " + TAIL, "INTEGER ::= 5 -7 B v TRUE BOOLEAN { } A ( )"),
    (HEAD + " K ::= CLASS { _ } " + TAIL, "&id &Type INTEGER UNIQUE OPTIONAL , DEFAULT 3 A &Set &v { }"),
    (HEAD + " K ::= CLASS { &id INTEGER UNIQUE , &Type OPTIONAL } WITH SYNTAX { _ } S K ::= { { ID 1 } } T ::= SEQUENCE { id K.&id ( { S } ) } " + TAIL, "ID &id TYPE &Type [ ] , { }"),
    (HEAD + " " + KLASS + " o2 K ::= { _ } S K ::= { o2 } T ::= SEQUENCE { id K.&id ( { S } ) , val K.&Type ( { S } { @id } ) } " + TAIL, "ID TYPE 1 v A INTEGER , { } &id"),
    (HEAD + " " + KLASS + " S K ::= { _ } o K ::= { ID 2 TYPE BOOLEAN } T ::= SEQUENCE { id K.&id ( { S } ) , val K.&Type ( { S } { @id } ) } " + TAIL, "o S | , ... { } ID 1 TYPE A K"),
    (HEAD + " " + KLASS + " " + SET + " T ::= SEQUENCE { id K.&id ( { S } ) , _ } " + TAIL, "val K.&Type K.&id ( { } ) S @id @. , OPTIONAL A"),
    (HEAD + " " + KLASS + " " + SET + " T ::= P { { S } } P { K : X } ::= SEQUENCE { id K.&id ( _ ) , val K.&Type ( { X } { @id } ) } " + TAIL, "{ X S } @id 5 .. | A"),
]

BASES = [
    "M { iso 1 x ( 3 ) } DEFINITIONS AUTOMATIC TAGS ::= BEGIN EXPORTS ALL ; IMPORTS C , w FROM N ; T ::= SEQUENCE { a INTEGER ( 0 .. w , ... ) , b C OPTIONAL , ... , [[ c OCTET STRING ( SIZE ( 1 .. 4 ) ) , d A DEFAULT TRUE ]] , "
    "e SEQUENCE ( SIZE ( 0 .. 3 ) ) OF T2 } T2 ::= CHOICE { p NULL , q PrintableString ( SIZE ( 1 .. 4 , ... ) ) , ... , r BIT STRING ( SIZE ( 8 ) ) } A ::= BOOLEAN E ::= ENUMERATED { x , y ( 5 ) , ... , z } END "
    "N DEFINITIONS AUTOMATIC TAGS ::= BEGIN C ::= INTEGER ( -3 .. 7 | 9 ) w INTEGER ::= 5 END",
    "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN " + KLASS + " " + SET + " T ::= SEQUENCE { id K.&id ( { S } ) , val K.&Type ( { S } { @id } ) } U ::= P { { S } } P { K : X } ::= SEQUENCE { i K.&id ( { X } ) , j K.&Type ( { X } { @i } ) OPTIONAL } "
    "Q { Y , INTEGER : n } ::= SEQUENCE { a Y , b INTEGER ( 0 .. n ) OPTIONAL } T3 ::= Q { A , v } " + TAIL,
]

NESTS = {
    "round": lambda d: HEAD + " T ::= INTEGER " + "(" * d + "0" + ")" * d + " END",
    "open": lambda d: HEAD + " T ::= INTEGER " + "(" * d + " END",
    "constraints": lambda d: HEAD + " T ::= INTEGER " + "(0..9)" * d + " END",
    "sizes": lambda d: HEAD + " T ::= OCTET STRING " + "(SIZE" * d + "(1)" + ")" * d + " END",
    "sequences": lambda d: HEAD + " T ::= " + "SEQUENCE { a " * d + "NULL" + " }" * d + " END",
    "choices": lambda d: HEAD + " T ::= " + "CHOICE { a " * d + "NULL" + " }" * d + " END",
    "ofs": lambda d: HEAD + " T ::= " + "SEQUENCE OF " * d + "NULL END",
    "mixed": lambda d: HEAD + " T ::= " + "SEQUENCE { a SEQUENCE OF CHOICE { b " * d + "NULL" + " } }" * d + " END",
    "containing": lambda d: HEAD + " T ::= " + "OCTET STRING ( CONTAINING " * d + "NULL" + " )" * d + " END",
    "contained": lambda d: HEAD + " T ::= INTEGER " + "(INTEGER " * d + "(0)" + ")" * d + " END",
    "curly": lambda d: HEAD + " T ::= P " + "{" * d + "A" + "}" * d + " END",
    "instances": lambda d: HEAD + " T ::= " + "P {" * d + "A" + "}" * d + " P {X} ::= SEQUENCE { a X } A ::= NULL END",
    "components": lambda d: HEAD + " T ::= SEQUENCE { " + ", ".join("a%d NULL" % i for i in range(d)) + " } END",
    "items": lambda d: HEAD + " T ::= ENUMERATED { " + ", ".join("a%d" % i for i in range(d)) + " } END",
    "unions": lambda d: HEAD + " T ::= INTEGER (" + " | ".join(str(i) for i in range(d)) + ") END",
    "chain": lambda d: HEAD + " " + " ".join("T%d ::= T%d" % (i, i + 1) for i in range(d)) + " T%d ::= NULL END" % d,
    "back": lambda d: HEAD + " T0 ::= NULL " + " ".join("T%d ::= T%d" % (i + 1, i) for i in range(d)) + " END",
    "values": lambda d: HEAD + " " + " ".join("v%d INTEGER ::= v%d" % (i, i + 1) for i in range(d)) + " v%d INTEGER ::= 3 T ::= INTEGER (0..v0) END" % d,
    "modules": lambda d: " ".join("M%d DEFINITIONS AUTOMATIC TAGS ::= BEGIN T%d ::= NULL END" % (i, i) for i in range(d)),
    "comments": lambda d: HEAD + " --x--" * d + " T ::= NULL END",
    "quotes": lambda d: HEAD + ' T ::= PrintableString (FROM ("' + '""' * d + '")) END',
    "digits": lambda d: HEAD + " T ::= INTEGER (0.." + "9" * d + ") END",
    "name": lambda d: HEAD + " T" + "a" * d + " ::= NULL END",
    "groups": lambda d: HEAD + " T ::= SEQUENCE { ... " + ", [[ a NULL ]]" * d + " } END",
    "sets": lambda d: HEAD + " " + KLASS + " " + " ".join("S%d K ::= { S%d }" % (i, i + 1) for i in range(d)) + " S%d K ::= { {ID 1} } T ::= SEQUENCE { id K.&id ({S0}) } END" % d,
}


def tla_seq(words):
    return "<<%s>>" % ", ".join('"%s"' % w.replace("\\", "\\\\").replace('"', '\\"') for w in words)


MC = """EXTENDS Asn1Texts
MCTexts == <<%s>>
MCAlphabet == %s
MCTypeNames == %s
"""
TYPE_NAMES = "A B C T U E N P Q X T2 T3 K S Y M".split()


def run(check, name, holes, alphabet, most, edit, **kw):
    """holes: [(text with _, words)]"""
    texts = []
    for t, some in holes:
        pre, post = (" " + t + " ").split(" _ ") if " _ " in " " + t else (t, "")
        texts.append("[pre |-> %s, post |-> %s, some |-> %s]" % (tla_seq(pre.split()), tla_seq(post.split()), tla_seq(some)))
    text = "---- MODULE MC ----\n" + MC % (",\n ".join(texts), tla_seq(alphabet), "{%s}" % ", ".join('"%s"' % t for t in TYPE_NAMES)) + "====\n"
    cfg = ("CONSTANTS\n Texts <- MCTexts\n Alphabet <- MCAlphabet\n TypeNames <- MCTypeNames\n Most = %d\n Edit = %s\n Sampled = %s\nSPECIFICATION Spec\n"
           "INVARIANTS Honest Told\nCHECK_DEADLOCK FALSE\n" % (most, "TRUE" if edit else "FALSE", "TRUE" if "simulate" in kw else "FALSE"))
    printed = sorted(set(p for p in check.tlc(("MC", text), cfg, name, **kw) if p.startswith("W ")))
    specs = [json.loads(p[2:]) for p in printed]
    r = random.Random("%s %d" % (name, check.seed))
    glue = lambda ws: " ".join(ws) if r.random() < .8 else "".join(w + r.choice([" ", "\n", " --c-- ", "\t"]) for w in ws)
    cases = [[glue(s["t"])] for s in specs]
    ends(check, name, specs, cases)


def ends(check, name, specs, cases):
    results = compiler.compile_all(check, name, cases)
    count = {}
    for s, files, (verdict, text) in zip(specs, cases, results):
        count[verdict] = count.get(verdict, 0) + 1
        w = None
        if verdict not in ("ok", "err"):
            w = "%s: %s" % (verdict, text[:200])
        elif verdict == "ok":
            have = set(re.findall(r"\b(?:struct|enum|type)\s+([A-Za-z0-9_]+)", text))
            gone = [p for p in s["p"] if asn.rust_type(p) not in have]
            if gone:
                w = "success without %s" % gone
        if w:
            t = " ".join(files)
            check.violation("text %r" % (t if len(t) < 300 else t[:150] + " ... " + t[-100:]), {"family": name, "wrong": w, "files": [f[:5000] for f in files], "code": text[:2000] if verdict == "ok" else ""})
    check.traces += len(specs)
    check.log("%s: %d compiled %s" % (name, len(specs), count))
    if specs:
        i = len(specs) // 2
        check.sample({"family": name, "text": cases[i][0][:400], "promised": specs[i]["p"]})


def nests(check, name, limit):
    printed = check.tlc("Asn1Nests", "CONSTANTS\n Kinds = %s\n Limit = %d\nSPECIFICATION Spec\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n" % (compiler.contexts(sorted(NESTS)), limit), name)
    specs = sorted((json.loads(p[2:]) for p in set(printed)), key=lambda s: (s["k"], s["d"]))
    cases = [[NESTS[s["k"]](s["d"])] for s in specs]
    ends(check, name, [{"p": []} for s in specs], cases)


def bundled(check, name, n):
    """Pieces of the bundled ASN.1, cut and edited as Asn1Texts does."""
    import lexing
    r = random.Random("%s %d" % (name, check.seed))
    small = [t for t in lexing.bundled() if len(t) < 60000] or lexing.bundled()
    cases = []
    for _ in range(n):
        t = r.choice(small)
        k = r.random()
        if k < .3:
            t = t[:r.randrange(len(t))]
        else:
            items = re.findall(r"\s+|[A-Za-z0-9&-]+|.", t)
            for _ in range(r.randint(1, 3)):
                i = r.randrange(len(items))
                x = r.random()
                if x < .3:
                    del items[i]
                elif x < .6:
                    items[i:i] = [r.choice(items)]
                elif x < .8:
                    items[i] = r.choice(G)
                else:
                    del items[i:i + r.randint(1, 40)]
                items = items or [""]
            t = "".join(items)
        cases.append([t])
    ends(check, name, [{"p": []}] * len(cases), cases)


def a02(check):
    check.build(compiler.CRATE)
    check.assumptions += ["texts of the listed shapes; longer ones sampled", "an item of the generated code counts as the definition of its name", "the time limit is 10 s, the stack 8 MiB, the memory 6 GiB"]
    holes = [(t, some.split()) for t, some in HOLES]
    run(check, "holes", holes, ["A"], 4 if check.deep else 3, False)
    run(check, "anything", [(t, G) for t, _ in holes], ["A"], 2, False) if check.deep else run(check, "anything", [(t, G) for t, _ in holes], ["A"], 1, False)
    run(check, "edits", [(b, ["A"]) for b in BASES], G if check.deep else G[::3] + ["A", "}"], 1, True)
    run(check, "more-edits", [(b, ["A"]) for b in BASES], G, 4, True, simulate=("num=%d" % (1500 if check.deep else 40), 5))
    nests(check, "nests", 20000 if check.deep else 4200)
    bundled(check, "bundled", 3000 if check.deep else 150)


CHECKS = {"A02": a02}
