"""A01: the tokenizer against Lexer.tla."""
import json, os, random
from common import *

CRATE = os.path.join(VERIF, "harness", "compiler")
BIN = os.path.join(TARGET, "debug", "compiler-harness")

# The reserved words (X.680 12.38) that hampi knows.
RESERVED = """ABSENT ABSTRACT-SYNTAX ALL APPLICATION AUTOMATIC BEGIN BIT BMPString BOOLEAN BY CHARACTER CHOICE CLASS
COMPONENT COMPONENTS CONSTRAINED CONTAINING DEFAULT DEFINITIONS EMBEDDED ENCODED END ENUMERATED EXCEPT EXPLICIT EXPORTS
EXTENSIBILITY EXTERNAL FALSE FROM GeneralizedTime GeneralString GraphicString IA5String IDENTIFIER IMPLIED IMPLICIT IMPORTS
INCLUDES INSTANCE INTEGER INTERSECTION ISO646String MAX MIN MINUS-INFINITY NULL NumericString OBJECT ObjectDescriptor OCTET
OF OPTIONAL PATTERN PDV PLUS-INFINITY PRESENT PrintableString PRIVATE REAL RELATIVE-OID SEQUENCE SET SIZE STRING SYNTAX
T61String TAGS TeletexString TRUE TYPE-IDENTIFIER UNION UNIQUE UNIVERSAL UniversalString UTCTime UTF8String VideotexString
VisibleString WITH""".split()

# One of every kind of lexical item, and what may stand between them.
ITEMS = ["a", "Ab", "a-B1", "INTEGER", "TYPE-IDENTIFIER", "12", "-5", "0", "&id", "&Type-a", "@a", "@.a.b", "{", "}", "(", ")", "[", "]",
         "[[", "]]", "..", "...", ".", ":", "::=", ";", ",", "!", "|", "^", "<", '"s"', '"a""b"', '"x \n  y"', "'01'B", "'0 \n1'B", "'9AF'H",
         "''H", "-- c --", "-- c\n", "--\t-x\r\n"]
GAPS = ["", " ", "\n", "\t", "--c--", "-- \n"]


def seq(s):
    return "<<%s>>" % ", ".join(str(ord(c)) for c in s)


def seqs(xs):
    return "{%s}" % ", ".join(sorted(set(seq(x) for x in xs)))


def words():
    """Reserved words and words that nearly are."""
    out = []
    for w in RESERVED:
        out += [w, w + " ", w + "{", w[:-1], w + "x", w + "-x", w.lower(), w[0].lower() + w[1:], "x" + w, "&" + w, w + "--" + w, w + "\n" + w, w.replace("-", " "), w.capitalize()]
    return out


def texts(check):
    """name, pieces, how many of them"""
    deep = check.deep
    yield "marks", list(".:=[] a1-\n"), 6 if deep else 5
    yield "words", list("aZ-7\n &@."), 6 if deep else 5
    yield "strings", list("\"'01BHA\n \r"), 6 if deep else 5
    yield "comments", list("-\n\ra\"'1 "), 7 if deep else 5
    yield "characters", [chr(c) for c in range(0, 128)] + list("\u00a0\u00e9\u2028\ufeff\U0001f600"), 2
    yield "reserved", words(), 1
    yield "items", ITEMS + GAPS, 3 if deep else 2
    yield "spaced", [g + i for i in ITEMS for g in GAPS], 2


def run_tokens(check, name, cases):
    path = os.path.join(check.work, name + ".cases")
    with open(path, "w") as f:
        for n, t in enumerate(cases):
            f.write(json.dumps({"n": n + 1, "t": t}) + "\n")
    p = check.run([BIN, "tokens", path], timeout=600)
    if check.aborted(p, name):
        return None
    out = []
    for line in p.stdout.splitlines():
        if line.startswith("\x01END"):
            n = int(line.split()[1])
            check.violation("hang", {"family": name, "text": show(cases[n - 1])})
            return None
        if line:
            out.append(json.loads(line))
    if p.returncode != 0 or len(out) != len(cases):
        raise ToolError("tokens of %s: %d, %d of %d" % (name, p.returncode, len(out), len(cases)))
    for o in out:
        if o["v"] == "unreadable":
            raise ToolError("the tokens cannot be read: " + o["debug"][:300])
        if "r" in o:
            o["r"] = [t for t in o["r"] if t[0] != "Comment"]
    return out


def show(t):
    return "".join(map(chr, t))


def agrees(spec, real):
    if real["v"] == "panic":
        return False
    if spec["v"] == "free":
        return True
    return spec["v"] == real["v"] and (spec["v"] == "err" or spec["r"] == real["r"])


def complain(check, name, text, spec, real):
    f = lambda r: [[k, l, c, show(t)] for k, l, c, t in r]
    check.violation("text %r" % show(text)[:200], {"family": name, "text": show(text), "expected": [spec["v"], f(spec["r"])] if spec else None,
                                                   "actual": [real["v"], f(real.get("r", []))]})


MC = """---- MODULE MC ----
EXTENDS %s
MCReserved == %s
%s====
"""


def replay(check, name, pieces, most):
    text = MC % ("LexerTexts", seqs(RESERVED), "MCPieces == %s\n" % seqs(pieces))
    cfg = ("CONSTANTS\n Reserved <- MCReserved\n Pieces <- MCPieces\n Most = %d\n Emit = TRUE\nSPECIFICATION Spec\n"
           "INVARIANTS Ordered Placed Stable Kept Told\nCHECK_DEADLOCK FALSE\n" % most)
    printed = check.tlc(("MC", text), cfg, name)
    specs = [json.loads(p[2:]) for p in printed if p.startswith("L ")]
    out = run_tokens(check, name, [s["t"] for s in specs])
    if out is None:
        return
    for s, o in zip(specs, out):
        if not agrees(s, o):
            complain(check, name, s["t"], s, o)
    check.traces += len(specs)
    check.sample({"family": name, "text": show(specs[len(specs) // 2]["t"]), "items": specs[len(specs) // 2]["r"]})


def bundled():
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "specs"))):
        for f in sorted(fs):
            if f.endswith((".asn", ".asn1")):
                out.append(open(os.path.join(d, f), encoding="utf-8", errors="replace").read())
    return out


def soup(r):
    """A text of items, gaps and now and then something that is neither."""
    out = []
    for _ in range(r.randint(1, 40)):
        out.append(r.choice(ITEMS) if r.random() < .5 else r.choice(RESERVED))
        out.append(r.choice(GAPS[1:]) if r.random() < .8 else "")
        if r.random() < .01:
            out.append(r.choice("/*\\%_$#'\"-@&=>\u00e9\x00"))
    return "".join(out)


def validate(check, name, n):
    r = random.Random("%s %d" % (name, check.seed))
    specs = bundled()
    cases = []
    for i in range(n):
        if i % 3 == 0 and specs:
            t = r.choice(specs)
            k = r.randrange(len(t))
            k = t.rfind("\n", 0, k) + 1 if r.random() < .7 else k
            t = t[k:k + r.choice([50, 200, 600, 1200])]
            if r.random() < .3:
                k = r.randrange(len(t) + 1)
                t = t[:k] + r.choice(ITEMS + GAPS) + t[k:]
        else:
            t = soup(r)
        cases.append([ord(c) for c in t])
    out = run_tokens(check, name, cases)
    if out is None:
        return
    path = os.path.join(check.work, name + ".ndjson")
    with open(path, "w") as f:
        for t, o in zip(cases, out):
            f.write(json.dumps({"t": t, "v": o["v"], "r": o.get("r", [])}) + "\n")
    text = MC % ("LexerTrace", seqs(RESERVED), "")
    printed = check.tlc(("MC", text), "CONSTANT Reserved <- MCReserved\nSPECIFICATION Spec\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n", name, env_extra={"TRACE_FILE": path})
    good = {int(p[2:]) for p in printed if p.startswith("D ")}
    bad = {int(p[2:]) for p in printed if p.startswith("M ")}
    if len(good) + len(bad) != len(cases):
        raise ToolError("%s: %d traces, %d accepted, %d rejected" % (name, len(cases), len(good), len(bad)))
    for i in sorted(bad):
        complain(check, name, cases[i - 1], None, out[i - 1])
    check.traces += len(good)


def a01(check):
    check.assumptions += ["texts up to the stated number of pieces; longer ones sampled", "only the place where an item begins is compared, not where it ends",
                          "items are seen through the Debug representation of Token"]
    check.build(CRATE)
    for name, pieces, most in texts(check):
        replay(check, name, pieces, most)
    validate(check, "recorded", 20000 if check.deep else 1500)


CHECKS = {"A01": a01}
