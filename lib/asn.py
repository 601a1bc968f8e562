"""ASN.1 modules of Asn1.tla as text, and generated Rust code as the structures of Asn1.tla."""
import re

# ---------------------------------------------------------------- numbers

M = 1000000
LANDMARKS = {600 * M: 2 ** 31, 700 * M: 2 ** 32, 710 * M: 10 ** 10, 720 * M: 2 ** 40, 730 * M: 4 * 10 ** 12, 740 * M: 2 ** 48, 750 * M: 2 ** 56,
             800 * M: 2 ** 63, 900 * M: 2 ** 64, 950 * M: 2 ** 126, 970 * M: 2 ** 130}
LANDMARKS.update({-k: -v for k, v in LANDMARKS.items()})


def concrete(a):
    if abs(a) < 500 * M:
        return a
    k = min(LANDMARKS, key=lambda k: abs(k - a))
    return LANDMARKS[k] + (a - k)


def abstract(n):
    if abs(n) < 2 ** 28:
        return n
    k = min(LANDMARKS, key=lambda k: abs(LANDMARKS[k] - n))
    return k + n - LANDMARKS[k] if abs(n - LANDMARKS[k]) < 1000 else None


# ---------------------------------------------------------------- text

class Text:
    """Writes modules. r: where the choices of layout come from (None: always the same)."""

    def __init__(self, r=None):
        self.r = r

    def pick(self, first, *others):
        return first if self.r is None or self.r.random() < .7 else self.r.choice(others)

    def join(self, words):
        if self.r is None:
            return " ".join(words)
        out = []
        for w in words:
            out.append(w)
            x = self.r.random()
            out.append(" " if x < .85 else "\n" if x < .92 else "\n   -- %s\n" % self.r.choice(["", "a ::= b", "\"", "}{"]) if x < .96 else " -- x -- " if x < .98 else "\t")
        return "".join(out)

    def number(self, w):
        if "i" in w:
            return str(concrete(w["i"]))
        return w["r"] if "r" in w else w["m"]

    def element(self, e):
        k = e["e"]
        if k == "v":
            return self.number(e["val"])
        if k == "r":
            return "%s%s..%s%s" % (self.number(e["lo"]), "" if e["loi"] else "<", "" if e["hii"] else "<", self.number(e["hi"]))
        if k == "t":
            return self.type(e["ty"])
        return self.pick("SIZE(%s)", "SIZE (%s)", "SIZE ( %s )") % self.inner(e["c"])

    def union(self, u):
        bar, cap = self.pick(" | ", "|", " UNION "), self.pick(" ^ ", "^", " INTERSECTION ")
        return bar.join(cap.join(self.element(e) for e in i) for i in u)

    def inner(self, c):
        out = self.union(c["u"])
        if c["x"]:
            out += self.pick(", ...", ",...", " , ... ")
            if c["a"]:
                out += ", " + self.union(c["a"][0])
        return out

    def cons(self, cs):
        return "".join(" (CONTAINING %s)" % self.type(c["ct"]) if "ct" in c else self.pick(" (%s)", "(%s)", " ( %s )") % self.inner(c) for c in cs)

    def arg(self, a):
        return self.type(a["ty"]) if a["a"] == "type" else self.number(a["val"]) if a["a"] == "value" else "{%s}" % a["n"]

    def comp(self, c):
        return "%s %s%s" % (c["n"], self.type(c["ty"]), {"": "", "O": " OPTIONAL", "D": " DEFAULT " + c.get("dv", "0")}[c.get("o", "")])

    def listed(self, root, x, adds, mm=False, more=()):
        out = [self.comp(c) for c in root]
        if x:
            out.append("...")
            group = []
            for i, c in enumerate(adds):
                g = c.get("g", 0)
                group.append(self.comp(c))
                if g == 0 or i + 1 == len(adds) or adds[i + 1].get("g", 0) != g:
                    out.append("[[ %s ]]" % ", ".join(group) if g else group[0])
                    group = []
            if mm:
                out.append("...")
                out += [self.comp(c) for c in more]
        return self.pick("{ %s }", "{%s}", "{\n %s\n}") % self.pick(", ", ",\n ", " , ").join(out)

    def items(self, ty):
        f = lambda i: i["n"] + ("(%s)" % self.number(i["num"][0]) if i["num"] else "")
        out = [f(i) for i in ty["items"]]
        if ty["x"]:
            out += ["..."] + [f(i) for i in ty["adds"]]
        return "{%s}" % ", ".join(out)

    def type(self, ty):
        k = ty["k"]
        if k == "bool":
            return "BOOLEAN"
        if k == "null":
            return "NULL"
        if k == "oid":
            return "OBJECT IDENTIFIER"
        if k == "int":
            return "INTEGER" + ("{%s}" % ", ".join("%s(%s)" % (i["n"], self.number(i["num"])) for i in ty["named"]) if ty.get("named") else "") + self.cons(ty["cons"])
        if k == "enum":
            return "ENUMERATED " + self.items(ty)
        if k == "bit":
            return "BIT STRING" + ("{%s}" % ", ".join("%s(%s)" % (i["n"], self.number(i["num"])) for i in ty["named"]) if ty.get("named") else "") + self.cons(ty["cons"])
        if k == "oct":
            return "OCTET STRING" + self.cons(ty["cons"])
        if k == "str":
            return ty["kind"] + self.cons(ty["cons"])
        if k == "of":
            return "SEQUENCE%s OF %s" % (self.cons(ty["cons"]), self.type(ty["of"]))
        if k == "seq":
            return "SEQUENCE " + self.listed(ty["comps"], ty["x"], ty["adds"], ty.get("mm", False) or bool(ty["more"]), ty["more"])
        if k == "choice":
            return "CHOICE " + self.listed(ty["alts"], ty["x"], ty["adds"])
        if k == "field":
            return "%s.&%s%s" % (ty["cls"], ty["f"], "" if not ty["set"] else " ({%s}%s)" % (ty["set"][0], "{@%s}" % ty["at"][0] if ty["at"] else ""))
        if k == "ref":
            return ty["n"] + (" {%s}" % ", ".join(self.arg(a) for a in ty["args"]) if ty["args"] else "") + self.cons(ty["cons"])
        raise ValueError(k)

    def object(self, classes, cls, o):
        c = classes.get(cls)
        by = {s["f"]: s for s in o}
        show = lambda s: self.type(s["ty"][0]) if s["ty"] else self.number(s["val"][0])
        if c is None or not c["syntax"]:
            return "{ %s }" % ", ".join("&%s %s" % (s["f"], show(s)) for s in o)
        out, known = [], set()
        for w in c["syntax"]:
            known.add(w["f"])
            if w["f"] in by:
                out.append((w["w"] + " " if w["w"] else "") + show(by[w["f"]]))
        out += ["WORD" + s["f"].upper() + " " + show(s) for s in o if s["f"] not in known]
        return "{ %s }" % " ".join(out)

    def value(self, v):
        return ("TRUE" if v["b"] else "FALSE") if "b" in v else v["en"] if "en" in v else self.number(v)

    def definition(self, d, classes):
        k = d["d"]
        if k == "type":
            ps = ""
            if d["params"]:
                ps = " {%s}" % ", ".join(p["n"] if p["g"] == "type" else "%s : %s" % (p.get("gov", "INTEGER"), p["n"]) for p in d["params"])
            return "%s%s ::= %s" % (d["n"], ps, self.type(d["ty"]))
        if k == "value":
            return "%s %s ::= %s" % (d["n"], self.type(d["ty"]), self.value(d["val"]))
        if k == "class":
            fs = []
            for f in d["fields"]:
                if f["k"] == "type":
                    fs.append("&%s%s" % (f["f"], " OPTIONAL" if f["opt"] == "O" else " DEFAULT " + self.type(f["dty"][0]) if f["opt"] == "D" else ""))
                else:
                    fs.append("&%s %s%s%s" % (f["f"], self.type(f["ty"][0]), " UNIQUE" if f["uniq"] else "",
                                              " OPTIONAL" if f["opt"] == "O" else " DEFAULT " + f.get("dv", "0") if f["opt"] == "D" else ""))
            opt = {f["f"]: f["opt"] for f in d["fields"]}
            sx = ""
            if d["syntax"]:
                sx = "\nWITH SYNTAX { %s }" % " ".join(("[%s]" if opt[w["f"]] else "%s") % ((w["w"] + " " if w["w"] else "") + "&" + w["f"]) for w in d["syntax"])
            return "%s ::= CLASS { %s }%s" % (d["n"], ", ".join(fs), sx)
        if k == "object":
            return "%s %s ::= %s" % (d["n"], d["cls"], self.object(classes, d["cls"], d["o"]))
        if k == "set":
            es = [self.object(classes, d["cls"], e["o"]) if "o" in e else e["r"] if "r" in e else e["s"] for e in d["elems"]]
            k = d.get("at", len(es))
            root, more = es[:k], es[k:]
            out = self.pick(" | ", " |\n ", "|").join(root)
            if d["x"]:
                out += (", " if out else "") + "..."
                if more:
                    out += ", " + " | ".join(more)
            return "%s %s ::= { %s }" % (d["n"], d["cls"], out)
        raise ValueError(k)

    def module(self, m, classes):
        head = "%s DEFINITIONS AUTOMATIC TAGS ::=\nBEGIN\n" % m["n"]
        if m["imports"]:
            head += "IMPORTS\n" + "\n".join("  %s FROM %s" % (", ".join(i["names"]), i["from"]) for i in m["imports"]) + ";\n"
        gap = self.pick("\n", "\n\n", "\n-- next\n", " ")
        return head + gap.join(self.definition(d, classes) for d in m["defs"]) + "\nEND\n"


def texts(mods, r=None):
    classes = {d["n"]: d for m in mods for d in m["defs"] if d["d"] == "class"}
    t = Text(r)
    return [t.module(m, classes) for m in mods]


# ---------------------------------------------------------------- generated code

TOKEN = re.compile(r'\s*(?://[^\n]*\n\s*)*("(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z0-9_]*|\d[A-Za-z0-9_]*|::|->|=>|.)', re.S)


class NotUnderstood(Exception):
    pass


class Rust:
    """What is defined in generated code: {name: item}."""

    def __init__(self, text):
        self.toks = [m.group(1) for m in TOKEN.finditer(text) if m.group(1).strip()]
        self.i = 0
        self.items = {}
        self.twice = []
        self.consts = {}
        while self.i < len(self.toks):
            self.item()

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ""

    def next(self, want=None):
        t = self.peek()
        if want is not None and t != want:
            raise NotUnderstood("%r instead of %r near %s" % (t, want, " ".join(self.toks[max(0, self.i - 8):self.i + 8])))
        self.i += 1
        return t

    def skip(self):
        """A group in brackets."""
        depth = 0
        while True:
            t = self.next()
            if t == "":
                raise NotUnderstood("end of the code")
            depth += t in "([{"
            depth -= t in ")]}"
            if depth == 0:
                return

    def attrs(self):
        out = {}
        while self.peek() == "#":
            self.next()
            if self.peek() == "!":
                self.next()
                self.skip()
                continue
            if self.peek(1) == "asn":
                self.next("[")
                self.next()
                self.next("(")
                while self.peek() != ")":
                    k = self.next()
                    if self.peek() == "=":
                        self.next()
                        out[k] = self.next().strip('"')
                    if self.peek() == ",":
                        self.next()
                self.next(")")
                self.next("]")
            else:
                self.skip()
        return out

    def type(self):
        t = self.next()
        while self.peek() == "::":
            self.next()
            t = self.next()
        if self.peek() == "<":
            self.next()
            args = [self.type()]
            while self.peek() == ",":
                self.next()
                if self.peek() != ">":
                    args.append(self.type())
            self.next(">")
            return [t] + args
        return t

    def item(self):
        attrs = self.attrs()
        if self.peek() == "":
            return
        if self.peek() == "pub":
            self.next()
            if self.peek() == "(":
                self.skip()
        k = self.next()
        if k == "use":
            while self.next() != ";":
                pass
        elif k == "type":
            name = self.next()
            self.next("=")
            self.add(name, {"alias": self.type()})
            self.next(";")
        elif k == "struct":
            name = self.next()
            it = {"attrs": attrs}
            if self.peek() == "(":
                self.next()
                self.attrs()
                if self.peek() == "pub":
                    self.next()
                it["holds"] = self.type()
                if self.peek() == ",":
                    self.next()
                self.next(")")
                self.next(";")
            elif self.peek() == ";":
                self.next()
            else:
                self.next("{")
                it["fields"] = []
                while self.peek() != "}":
                    a = self.attrs()
                    if self.peek() == "pub":
                        self.next()
                    n = self.next()
                    self.next(":")
                    it["fields"].append((n, self.type(), a))
                    if self.peek() == ",":
                        self.next()
                self.next("}")
            self.add(name, it)
        elif k == "enum":
            name = self.next()
            it = {"attrs": attrs, "variants": []}
            self.next("{")
            while self.peek() != "}":
                a = self.attrs()
                n = self.next()
                self.next("(")
                t = self.type()
                if self.peek() == ",":
                    self.next()
                self.next(")")
                it["variants"].append((n, t, a))
                if self.peek() == ",":
                    self.next()
            self.next("}")
            self.add(name, it)
        elif k == "impl":
            names = []
            while self.peek() not in ("{", ""):
                names.append(self.next())
            if len(names) != 1:
                self.skip()
                return
            self.next("{")
            while self.peek() != "}":
                self.attrs()
                if self.peek() == "pub":
                    self.next()
                if self.peek() == "const":
                    self.next()
                    n = self.next()
                    self.next(":")
                    t = self.type()
                    self.next("=")
                    v = self.next()
                    if v == "-":
                        v += self.next()
                    self.next(";")
                    self.consts.setdefault(names[0], []).append((n, int(re.match(r"-?\d+", v).group(0)), t))
                else:
                    while self.peek() not in ("{", ";", ""):
                        self.next()
                    if self.next() == "{":
                        self.i -= 1
                        self.skip()
            self.next("}")
        elif k in ("mod", "fn", "const", "static"):
            while self.peek() not in ("{", ";", ""):
                self.next()
            if self.peek() == "{":
                self.skip()
            else:
                self.next()
        else:
            raise NotUnderstood("%r near %s" % (k, " ".join(self.toks[max(0, self.i - 8):self.i + 8])))

    def add(self, name, it):
        if name in self.items:
            self.twice.append(name)
        self.items[name] = it


def rust_type(name):
    return (name[:1].upper() + name[1:]).replace("-", "_")


def same(asn, rust):
    """Is it the same name? (The case of letters and what separates the words are not.)"""
    f = lambda s: re.sub(r"[^a-z0-9]", "", s.lower())
    return f(asn) == f(rust) or (asn == "type" and rust == "typ")


def flag(attrs, k):
    return attrs.get(k, "false") == "true"


class Mismatch(Exception):
    pass


class Match:
    """Compares the structures that Asn1.tla expects with generated code. After a successful match,
    idents has the Rust names along every path."""

    def __init__(self, expected, code):
        self.rust = Rust(code)
        self.used = set()
        if self.rust.twice:
            raise Mismatch("defined twice: %s" % self.rust.twice)
        names = {}
        for n, x in sorted(expected.items()):
            ident = rust_type(n)
            if ident in names:
                raise Mismatch("%s and %s have one name" % (n, names[ident]))
            names[ident] = n
            if ident not in self.rust.items:
                raise Mismatch("%s is missing" % n)
            self.named(ident, x, n)
        extra = sorted(set(self.rust.items) - self.used)
        if extra:
            raise Mismatch("not asked for: %s" % extra[:5])

    def need(self, what, path, expected, actual):
        if expected != actual:
            raise Mismatch("%s: %s is %s, not %s" % (path, what, actual, expected))

    def ident(self, t, x, path):
        """The type of a component, alternative or element."""
        if not isinstance(t, str):
            raise Mismatch("%s: of type %s" % (path, t))
        if x["k"] == "ref":
            self.need("type", path, rust_type(x["n"]), t)
            if t not in self.rust.items:
                raise Mismatch("%s: %s is not defined" % (path, t))
        else:
            self.named(t, x, path)

    def named(self, ident, x, path):
        it = self.rust.items.get(ident)
        if it is None:
            raise Mismatch("%s: %s is not defined" % (path, ident))
        self.used.add(ident)
        k = x["k"]
        if k == "ref":
            self.need("definition", path, rust_type(x["n"]), it.get("alias"))
            return
        if "alias" in it:
            raise Mismatch("%s: an alias of %s, not %s" % (path, it["alias"], x))
        a = it["attrs"]
        opt = lambda o: str(concrete(o[0])) if o else None
        self.need("kind", path, {"bool": "BOOLEAN", "null": "NULL", "oid": "OBJECT-IDENTIFIER", "int": "INTEGER", "enum": "ENUMERATED", "bit": "BITSTRING",
                                 "oct": "OCTET-STRING", "str": x.get("kind"), "of": "SEQUENCE-OF", "seq": "SEQUENCE", "choice": "CHOICE", "open": "OPEN"}[k], a.get("type"))
        if k == "int":
            self.need("lower bound", path, opt(x["lb"]), a.get("lb"))
            self.need("upper bound", path, opt(x["ub"]), a.get("ub"))
            self.need("extensible", path, x["ext"], flag(a, "extensible"))
            if it.get("holds") not in x["h"]:
                raise Mismatch("%s: held by %s, not one of %s" % (path, it.get("holds"), x["h"]))
        elif k == "enum":
            self.need("lower bound", path, "0", a.get("lb"))
            self.need("upper bound", path, str(len(x["names"]) - 1), a.get("ub"))
            self.need("extensible", path, x["ext"], flag(a, "extensible"))
            if it.get("holds") not in x["h"]:
                raise Mismatch("%s: held by %s" % (path, it.get("holds")))
            cs = sorted(self.rust.consts.get(ident, []), key=lambda c: c[1])
            self.need("indices", path, list(range(len(x["names"]))), [c[1] for c in cs])
            for n, c in zip(x["names"], cs):
                if not same(n, c[0]):
                    raise Mismatch("%s: index %d is %s, not %s" % (path, c[1], c[0], n))
        elif k in ("bit", "oct", "str", "of"):
            if not (k == "str" and x["kind"] == "UTF8String"):
                self.need("least size", path, opt(x["lb"]), a.get("sz_lb"))
                self.need("greatest size", path, opt(x["ub"]), a.get("sz_ub"))
                self.need("extensible size", path, x["ext"], flag(a, "sz_extensible"))
            if k == "of":
                h = it.get("holds")
                if not (isinstance(h, list) and h[0] == "Vec" and len(h) == 2):
                    raise Mismatch("%s: holds %s" % (path, h))
                self.ident(h[1], x["of"], path + "[]")
            else:
                self.need("what holds it", path, {"bit": ["BitVec", "u8", "Msb0"], "oct": ["Vec", "u8"], "str": "String"}[k], it.get("holds"))
        elif k == "bool":
            self.need("what holds it", path, "bool", it.get("holds"))
        elif k == "seq":
            self.need("extensible", path, x["ext"], flag(a, "extensible"))
            self.need("optional fields", path, str(len([c for c in x["comps"] if c["opt"]])), a.get("optional_fields", "0"))
            fs = it.get("fields", [])
            self.need("number of components", path, len(x["comps"]), len(fs))
            idx = 0
            for c, (n, t, fa) in zip(x["comps"], fs):
                p = "%s.%s" % (path, c["n"])
                if not same(c["n"], n):
                    raise Mismatch("%s: %s stands there" % (p, n))
                if c["opt"]:
                    if not (isinstance(t, list) and t[0] == "Option"):
                        raise Mismatch("%s: not optional" % p)
                    t = t[1]
                    self.need("optional index", p, str(idx), fa.get("optional_idx"))
                    idx += 1
                elif isinstance(t, list) or "optional_idx" in fa:
                    raise Mismatch("%s: optional" % p)
                self.need("key", p, c["key"], flag(fa, "key_field"))
                self.ident(t, c["ty"], p)
        elif k == "choice":
            self.need("extensible", path, x["ext"], flag(a, "extensible"))
            self.need("lower bound", path, "0", a.get("lb"))
            self.need("upper bound", path, str(len(x["root"]) - 1), a.get("ub"))
            want = {("false", str(i)): c for i, c in enumerate(x["root"])}
            want.update({("true", str(i)): c for i, c in enumerate(x["adds"])})
            vs = it.get("variants", [])
            self.need("number of alternatives", path, len(want), len(vs))
            for n, t, va in vs:
                c = want.pop((va.get("extended", "false"), va.get("key")), None)
                if c is None or not same(c["n"], n):
                    raise Mismatch("%s: alternative %s has %s" % (path, n, va))
                self.ident(t, c["ty"], "%s.%s" % (path, n))
        elif k == "open":
            want = {str(concrete(c["key"])): c for c in x["alts"]}
            vs = it.get("variants", [])
            self.need("number of alternatives", path, len(want), len(vs))
            for n, t, va in vs:
                c = want.pop(va.get("key"), None)
                if c is None or (c["n"] and not same(c["n"], n)):
                    raise Mismatch("%s: alternative %s has key %s" % (path, n, va.get("key")))
                self.ident(t, c["ty"], "%s.%s" % (path, n))
