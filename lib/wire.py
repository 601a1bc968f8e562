"""A12: generated code sends what the definitions say: ASN.1 through the compiler, its code through rustc and the
derive macros, and the result against AperMessages.tla for the types that Asn1Wire.tla makes of the definitions."""
import concurrent.futures, json, os, random, re, shutil, subprocess
import asn, compiler, derived
import universe as U
from common import *

BINARY = os.path.join(TARGET, "debug", "hampi-asn1c")


# ---------------------------------------------------------------- modules

class Modules:
    """Random modules in the syntax of Asn1.tla, with everything that is supported."""

    def __init__(self, r, depth=3, size=8):
        self.r, self.depth = r, depth
        self.defs, self.types, self.ints, self.values, self.params, self.sets, self.enums = [], [], [], [], [], [], []
        self.n = 0
        for _ in range(r.randint(0, 3)):
            self.value()
        if r.random() < .5:
            self.klass()
        if r.random() < .5:
            self.param()
        for _ in range(size):
            self.define()

    def name(self, p):
        self.n += 1
        return "%s%s%d" % (p, self.r.choice(["", "", "-x", "Item"]), self.n)

    def ident(self, k):
        return "abcdefghijklmnopqrstuvwxyz"[k % 26] + self.r.choice(["", "", "-id", "Num", "1", "-a-b"]) + (str(k) if k > 25 else "")

    def add(self, d):
        self.defs.append(d)
        return d["n"]

    def w(self, n):
        """A number, or a value that has it."""
        vs = [v for v in self.values if v[1] == n]
        return {"r": self.r.choice(vs)[0]} if vs and self.r.random() < .7 else {"i": n}

    def value(self):
        n = self.r.choice([0, 1, 3, 5, 8, 100, 255, 256, 65535])
        v = self.add({"d": "value", "n": "v%d" % len(self.values), "ty": {"k": "int", "cons": []}, "val": {"i": n}})
        self.values.append((v, n))

    def element(self, lo, hi):
        if lo == hi and self.r.random() < .7:
            return {"e": "v", "val": self.w(lo)}
        return {"e": "r", "lo": self.w(lo), "loi": True, "hi": self.w(hi), "hii": True}

    def con(self, u, x=False, a=None):
        return {"u": u, "x": x, "a": [a] if a else []}

    def int_cons(self):
        r = self.r
        k = r.randrange(10)
        lo, hi = r.choice([(0, 0), (0, 1), (0, 7), (0, 8), (0, 100), (1, 256), (0, 255), (0, 256), (1, 65536), (0, 65535), (0, 65536), (3, 3), (-1, 1), (-128, 127), (-129, 5), (-40000, 3),
                           (0, asn.abstract(2 ** 32 - 1)), (0, asn.abstract(2 ** 32)), (asn.abstract(-2 ** 31), asn.abstract(2 ** 31 - 1)), (1, asn.abstract(10 ** 10)), (0, asn.abstract(2 ** 64 - 1)), (5, 70000), (1000, 1003)])
        if k == 0:
            return []
        if k < 6 or hi - lo < 6 or hi > 2 ** 28:
            x = r.random() < .3
            return [self.con([[self.element(lo, hi)]], x, [[self.element(hi + 1, hi + 3)]] if x and hi < 2 ** 28 and r.random() < .5 else None)]
        mid = (lo + hi) // 2
        if k == 6:
            return [self.con([[self.element(lo, mid - 1)], [self.element(mid + 1, hi)]], r.random() < .3)]
        if k == 7:
            return [self.con([[self.element(lo, hi)]]), self.con([[self.element(lo + 1, mid)]], r.random() < .3)]
        if k == 8:
            return [self.con([[self.element(lo, hi), self.element(mid, hi + 5)]], r.random() < .3)]
        return [self.con([[{"e": "t", "ty": {"k": "int", "cons": [self.con([[self.element(lo, hi)]])]}}]])]

    def size_cons(self):
        r = self.r
        if r.random() < .35:
            return []
        lo, hi = r.choice([(0, 0), (1, 1), (2, 2), (3, 3), (5, 5), (0, 1), (0, 3), (1, 4), (1, 16), (2, 40), (0, 255), (1, 256), (1, 65535), (0, 65536)])
        s = self.con([[self.element(lo, hi)]] if r.random() < .85 or hi - lo < 3 else [[self.element(lo, lo + 1)], [self.element(hi, hi)]], r.random() < .25)
        return [self.con([[{"e": "s", "c": s}]])]

    def prim(self):
        r = self.r
        k = r.randrange(9)
        if k < 3:
            return {"k": "int", "cons": self.int_cons()}
        if k == 3:
            return {"k": "bool"}
        if k == 4:
            return {"k": "null"}
        if k == 5:
            return self.enum()
        return r.choice([{"k": "bit", "cons": self.size_cons()}, {"k": "oct", "cons": self.size_cons()},
                         {"k": "str", "kind": r.choice(["PrintableString", "VisibleString", "UTF8String"]), "cons": self.size_cons()}])

    def enum(self):
        r = self.r
        n = r.choice([1, 2, 3, 4, 5, 9, 17])
        nums = r.sample(range(3 * n), n)
        items = [{"n": self.ident(i), "num": [{"i": nums[i]}] if r.random() < .4 else []} for i in range(n)]
        x = r.random() < .4
        top = 100
        adds = [{"n": self.ident(n + j), "num": [{"i": top + j}] if r.random() < .5 else []} for j in range(r.randint(0, 2))] if x else []
        if any(a["num"] for a in adds) and not adds[0]["num"]:
            adds[0]["num"] = [{"i": top}]
        return {"k": "enum", "items": items, "x": x, "adds": adds}

    def ref(self):
        r = self.r
        if self.params and r.random() < .3:
            p = r.choice(self.params)
            args = [{"a": "type", "ty": {"k": "ref", "n": r.choice(self.types), "args": [], "cons": []}} if q["g"] == "type" else
                    {"a": "value", "val": self.w(r.choice([3, 5, 8, 100, 255, 1000]))} if q["g"] == "value" else {"a": "set", "n": r.choice(self.sets)} for q in p[1]] if self.types else None
            if args:
                return {"k": "ref", "n": p[0], "args": args, "cons": []}
        if self.ints and r.random() < .15:
            n, lo, hi = r.choice(self.ints)
            return {"k": "ref", "n": n, "args": [], "cons": [self.con([[self.element(lo, (lo + hi) // 2)]], r.random() < .2)]}
        return {"k": "ref", "n": r.choice(self.types), "args": [], "cons": []} if self.types else self.prim()

    def comps(self, n, depth, start=0, opts=True):
        r = self.r
        out = []
        for i in range(n):
            o = r.choice(["", "", "O", "O", "D"]) if opts else ""
            ty = self.type(depth - 1)
            dv = {"bool": "TRUE", "int": "0"}.get(ty["k"])
            if o == "D" and (dv is None or ty["k"] == "int" and ty["cons"]):
                o = "O"
            out.append(dict({"n": self.ident(start + i), "ty": ty, "o": o, "g": 0}, **({"dv": dv} if dv else {})))
        return out

    def type(self, depth):
        r = self.r
        k = r.randrange(12)
        if depth <= 0 or k < 3:
            return self.prim() if r.random() < .5 else self.ref()
        if k < 7:
            cs = self.comps(r.choice([0, 1, 2, 3, 3, 4, 6]), depth)
            if self.sets and r.random() < .35:
                cs += self.keyed(len(cs), r.choice(self.sets))
            x = r.random() < .4
            n = len(cs)
            adds = self.comps(r.choice([0, 0, 1, 2, 3]), 1, n) if x else []
            g = 0
            for i, c in enumerate(adds):
                if r.random() < .5:
                    g += r.random() < .6 or g == 0
                    c["g"] = g
            mm = x and r.random() < .3
            more = self.comps(r.choice([0, 1, 2]), 1, n + len(adds)) if mm else []
            return {"k": "seq", "comps": cs, "x": x, "adds": adds, "mm": mm, "more": more}
        if k < 9:
            alts = self.comps(r.choice([1, 2, 3, 4, 5]), depth, 0, False)
            x = r.random() < .4
            return {"k": "choice", "alts": alts, "x": x, "adds": self.comps(r.choice([0, 1, 2]), 1, len(alts), False) if x else []}
        if k < 11:
            return {"k": "of", "cons": self.size_cons(), "of": self.type(depth - 1)}
        return self.ref()

    def keyed(self, start, s):
        r = self.r
        f = lambda f, at: {"k": "field", "cls": "KIND", "f": f, "set": [s], "at": [at] if at else []}
        id = self.ident(start)
        out = [{"n": id, "ty": f("id", ""), "o": "", "g": 0}]
        if r.random() < .4:
            out.append({"n": self.ident(start + 1), "ty": {"k": "ref", "n": "Crit", "args": [], "cons": []}, "o": "", "g": 0})
        out.append({"n": self.ident(start + 2), "ty": f("Type", id), "o": r.choice(["", "", "O"]), "g": 0})
        return out

    def klass(self):
        r = self.r
        self.add({"d": "type", "n": "Crit", "params": [], "ty": {"k": "enum", "items": [{"n": i, "num": []} for i in ("reject", "ignore", "notify")], "x": False, "adds": []}})
        self.types.append("Crit")
        idty = {"k": "int", "cons": [self.con([[{"e": "r", "lo": {"i": 0}, "loi": True, "hi": {"i": r.choice([255, 65535])}, "hii": True}]])]}
        self.add({"d": "class", "n": "KIND", "fields": [{"f": "id", "k": "value", "opt": "", "uniq": True, "ty": [idty], "dty": []}, {"f": "Type", "k": "type", "opt": "", "uniq": False, "ty": [], "dty": []}],
                  "syntax": [{"w": "ID", "f": "id"}, {"w": "TYPE", "f": "Type"}]})
        for _ in range(3):
            self.define(2)
        ids = r.sample([0, 1, 2, 3, 7, 8, 100, 200, 255], 5)
        objs = []
        for i, k in enumerate(ids):
            o = [{"f": "id", "val": [self.w(k)], "ty": []}, {"f": "Type", "val": [], "ty": [self.type(1)]}]
            objs.append({"r": self.add({"d": "object", "n": "obj%d" % i, "cls": "KIND", "o": o})} if r.random() < .6 else {"o": o})
        for name in ("Set-A", "Set-B"):
            es = r.sample(objs, r.randint(1, 4))
            x = r.random() < .6
            self.sets.append(self.add({"d": "set", "n": name, "cls": "KIND", "elems": es, "x": x, "at": r.randint(1, len(es)) if x else len(es)}))

    def param(self):
        r = self.r
        if not self.types:
            self.define(1)
        ps = [p for p in ([{"n": "X", "g": "type"}] * r.randint(0, 1) + [{"n": "n", "g": "value"}] * r.randint(0, 1) + ([{"n": "Objs", "g": "set", "gov": "KIND"}] if self.sets and r.random() < .6 else []))]
        if not ps:
            ps = [{"n": "X", "g": "type"}]
        cs = []
        for p in ps:
            if p["g"] == "type":
                cs.append({"n": "px", "ty": {"k": "ref", "n": "X", "args": [], "cons": []}, "o": r.choice(["", "O"]), "g": 0})
                cs.append({"n": "ps", "ty": {"k": "of", "cons": self.size_cons(), "of": {"k": "ref", "n": "X", "args": [], "cons": []}}, "o": r.choice(["", "O"]), "g": 0})
            elif p["g"] == "value":
                cs.append({"n": "pn", "ty": {"k": "int", "cons": [self.con([[{"e": "r", "lo": {"i": 0}, "loi": True, "hi": {"r": "n"}, "hii": True}]])]}, "o": r.choice(["", "O"]), "g": 0})
                cs.append({"n": "po", "ty": {"k": "oct", "cons": [self.con([[{"e": "s", "c": self.con([[{"e": "r", "lo": {"i": 1}, "loi": True, "hi": {"r": "n"}, "hii": True}]])}]])]}, "o": r.choice(["", "O"]), "g": 0})
            else:
                cs += self.keyed(20, "Objs")
        r.random() < .5 and cs.reverse() if not any(p["g"] == "set" for p in ps) else None
        n = self.add({"d": "type", "n": "Par%d" % len(self.params), "params": ps, "ty": {"k": "seq", "comps": cs, "x": r.random() < .4, "adds": [], "mm": False, "more": []}})
        self.params.append((n, ps))

    def define(self, depth=None):
        ty = self.type(self.depth if depth is None else depth)
        n = self.add({"d": "type", "n": self.name("T"), "params": [], "ty": ty})
        self.types.append(n)
        if ty["k"] == "int" and len(ty["cons"]) == 1 and not ty["cons"][0]["x"] and len(ty["cons"][0]["u"]) == 1 and len(ty["cons"][0]["u"][0]) == 1:
            e = ty["cons"][0]["u"][0][0]
            if e["e"] == "r" and "i" in e["lo"] and "i" in e["hi"] and e["hi"]["i"] < 2 ** 28 and e["hi"]["i"] > e["lo"]["i"]:
                self.ints.append((n, e["lo"]["i"], e["hi"]["i"]))

    def modules(self):
        """One module, or two where the second imports from the first."""
        r = self.r
        if r.random() < .6:
            ds = list(self.defs)
            r.random() < .5 and r.shuffle(ds)
            return [{"n": "M", "imports": [], "defs": ds}]
        k = r.randint(1, len(self.defs) - 1)
        first, second = self.defs[:k], self.defs[k:]
        used = set(json.dumps(second).replace('"', " ").split())
        names = [d["n"] for d in first if d["n"] in used]
        return [{"n": "B-two", "imports": [{"names": names, "from": "A"}] if names else [], "defs": second}, {"n": "A", "imports": [], "defs": first}]


# ---------------------------------------------------------------- the generated code

class Odd(Exception):
    pass


class Converters:
    """From generated code, and what it is to send, the conversions of its values."""

    def __init__(self, code):
        self.rust = asn.Rust(code)
        self.done = {}

    def resolve(self, t):
        for _ in range(100):
            if not isinstance(t, str) or t not in self.rust.items:
                raise Odd("the type %s is not defined" % t)
            if "alias" not in self.rust.items[t]:
                return t
            t = self.rust.items[t]["alias"]
        raise Odd("endless aliases")

    def walk(self, w, t, path):
        """The type of AperTypes for what is to be sent (w) as the Rust type t."""
        t = self.resolve(t)
        it = self.rust.items[t]
        k = w["t"]
        conv = None
        lim = lambda b: [U.I(asn.concrete(b[0]))] if b else []
        if k in ("int", "enum"):
            c = it.get("holds")
            if c not in U.CARRIERS:
                raise Odd("%s: %s holds %s" % (path, t, c))
            lo, hi = U.CARRIERS[c]
            out = {"t": k, "lb": lim(w["lb"]), "ub": lim(w["ub"]), "ext": w["ext"], "clo": U.I(lo), "chi": U.I(hi)}
            for b in (w["lb"], w["ub"]):
                if b and not lo <= asn.concrete(b[0]) <= hi:
                    raise Odd("%s: %s does not hold %d" % (path, t, asn.concrete(b[0])))
            if k == "int":
                conv = U.prim_conv(t, "int:" + c)
            else:
                cs = self.rust.consts.get(t, [])
                by = []
                for n in w["names"]:
                    fit = [x[0] for x in cs if asn.same(n, x[0])]
                    if len(fit) != 1:
                        raise Odd("%s: %s has not one constant for %s" % (path, t, n))
                    by.append(fit[0])
                fr = "".join("%d => return Some(%s(%s::%s as %s)), " % (i, t, t, n, c) for i, n in enumerate(by))
                to = "".join("if self.0 == %s::%s as %s { return int_j(%d); } " % (t, n, c, i) for i, n in enumerate(by))
                conv = ("impl crate::J for %s {\n fn from(v: &::serde_json::Value) -> Option<Self> { match jint(v)? { %s_ => {} }; Some(%s(<%s>::try_from(jint(v)?).ok()?)) }\n fn to(&self) -> ::serde_json::Value { %sint_j(self.0 as i128) }\n}\n" % (t, fr, t, c, to))
        elif k in ("bool", "null"):
            out = {"t": k}
            if (it.get("holds") != "bool") if k == "bool" else ("holds" in it or "fields" in it):
                raise Odd("%s: %s is no %s" % (path, t, k))
            conv = U.prim_conv(t, k)
        elif k in ("bit", "oct", "vis", "prt", "utf"):
            out = {"t": k, "lb": lim(w["lb"]), "ub": lim(w["ub"]), "ext": w["ext"]}
            want = {"bit": ["BitVec", "u8", "Msb0"], "oct": ["Vec", "u8"]}.get(k, "String")
            if it.get("holds") != want:
                raise Odd("%s: %s holds %s" % (path, t, it.get("holds")))
            conv = U.prim_conv(t, k)
        elif k == "seqof":
            h = it.get("holds")
            if not (isinstance(h, list) and h[0] == "Vec"):
                raise Odd("%s: %s holds %s" % (path, t, h))
            out = {"t": k, "lb": lim(w["lb"]), "ub": lim(w["ub"]), "ext": w["ext"], "of": self.walk(w["of"], h[1], path + "[]")}
            conv = U.of_conv(t, self.resolve(h[1]))
        elif k == "seq":
            fs, cs = [], []
            left = list(it.get("fields", []))
            if "fields" not in it:
                raise Odd("%s: %s has no fields" % (path, t))
            for c in w["c"]:
                fit = [f for f in left if asn.same(c["n"], f[0])]
                if len(fit) != 1:
                    raise Odd("%s: %s has not one field for %s" % (path, t, c["n"]))
                left.remove(fit[0])
                n, ft, _ = fit[0]
                opt = isinstance(ft, list) and ft[0] == "Option"
                if opt != c["opt"]:
                    raise Odd("%s: %s.%s is %s" % (path, t, n, ft))
                ft = ft[1] if opt else ft
                cs.append({"ty": self.walk(c["ty"], ft, "%s.%s" % (path, n)), "opt": opt, "key": c["key"]})
                fs.append((n, self.resolve(ft), opt))
            if left:
                raise Odd("%s: %s has a field %s" % (path, t, left[0][0]))
            out = {"t": "seq", "ext": w["ext"], "c": cs}
            conv = U.seq_conv(t, fs)
        elif k in ("choice", "open"):
            vs, alts = [], []
            left = list(it.get("variants", []))
            if "variants" not in it:
                raise Odd("%s: %s has no variants" % (path, t))
            for a in w["a"]:
                fit = [v for v in left if asn.same(a["n"], v[0])] if k == "choice" else [v for v in left if v[2].get("key") == str(asn.concrete(a["k"]))]
                if len(fit) != 1:
                    raise Odd("%s: %s has not one variant for %s" % (path, t, a.get("n", a["k"])))
                left.remove(fit[0])
                n, vt, _ = fit[0]
                sub = self.walk(a["ty"], vt, "%s.%s" % (path, n))
                alts.append({"k": a["k"], "x": a["x"], "ty": sub} if k == "choice" else {"k": U.I(asn.concrete(a["k"])), "ty": sub})
                vs.append((n, self.resolve(vt)))
            if left:
                raise Odd("%s: %s has a variant %s" % (path, t, left[0][0]))
            out = {"t": k, "a": alts}
            if k == "choice":
                out.update(ext=w["ext"], ub=w["ub"])
            conv = U.enum_conv(t, vs)
        else:
            raise Odd("%s: %s" % (path, k))
        if self.done.setdefault(t, conv) != conv:
            raise Odd("%s: %s stands for two types" % (path, t))
        return out


def generate(check, d, n, files):
    """(code or None, message) of the real compiler."""
    paths = []
    for k, f in enumerate(files):
        p = os.path.join(d, "case%d-%d.asn" % (n, k))
        with open(p, "w") as out:
            out.write(f)
        paths.append(p)
    p = subprocess.run([BINARY] + paths, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env({}))
    if p.returncode not in (0, 1):
        return None, "ended with %d" % p.returncode
    return (p.stdout.decode(), "") if p.returncode == 0 else (None, p.stderr.decode()[-300:])


def usable(w):
    """Can the derive macros do it?"""
    if isinstance(w, dict):
        return w.get("t") not in ("oid", "IA5String", "NumericString") and all(usable(x) for x in w.values())
    return all(usable(x) for x in w) if isinstance(w, list) else True


def modules_to_send(check, name, mods, r, refusable):
    """What there is of a universe: [(n, the Rust code of the module, [(type, what is sent)], texts)]."""
    d = os.path.join(check.work, "w-" + name)
    os.makedirs(d)
    path = os.path.join(d, "modules.json")
    with open(path, "w") as f:
        json.dump(mods, f)
    told = check.tlc("Asn1Wire", "SPECIFICATION Spec\nINVARIANTS Transparent Told\nCHECK_DEADLOCK FALSE\n", "wire-" + name, env_extra={"MODULES": path})
    told = {t["i"]: t for t in (json.loads(p[2:]) for p in told if p.startswith("W "))}
    if len(told) != len(mods):
        raise ToolError("%s: %d of %d modules understood" % (name, len(told), len(mods)))
    out, count = [], {}
    files = [asn.texts(m, r) for m in mods]
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        codes = list(pool.map(lambda x: generate(check, d, *x), enumerate(files)))
    for n, m in enumerate(mods):
        t, texts, (code, msg) = told[n + 1], files[n], codes[n]
        what = t["v"] if code is not None or t["v"] == "err" else "refused"
        count[what] = count.get(what, 0) + 1
        detail = {"family": name, "files": texts, "expected": t["v"], "code": code}
        def bad(w):
            check.violation("modules %r" % " ".join(" ".join(texts).split())[:400], dict(detail, wrong=w))
        if code is None:
            if (t["v"] == "ok" and not refusable) or "ended with" in msg:
                bad("refused: %s" % msg)
            continue
        if t["v"] == "err":
            bad("accepted")
            continue
        if t["any"]:
            continue
        try:
            conv = Converters(code)
            mine = [(ty, conv.walk(w, asn.rust_type(ty), ty)) for ty, w in sorted(t["w"].items()) if usable(w)]
        except (Odd, asn.NotUnderstood) as e:
            bad(str(e))
            continue
        out.append((n, "pub mod m%d {\n%s\n use super::*;\n use crate::J as _;\n%s\n}\n" % (n, code, "\n".join(conv.done.values())), mine, texts))
    check.log("%s: %d modules %s, %d types" % (name, len(mods), count, sum(len(x[2]) for x in out)))
    return out


def some(r, ty, depth=0, key=None):
    """A value; now and then something in it does not fit. Lists get short with their depth."""
    t = ty["t"]
    if t == "seq":
        v, k = [], key
        for i, c in enumerate(ty["c"]):
            if c["opt"] and r.random() < .4:
                v.append([])
                continue
            if c["key"]:
                k = r.choice([x for x in U.keys_after(ty["c"], i) if U.num(c["ty"]["clo"]) <= x <= U.num(c["ty"]["chi"])] or [0])
                v.append([U.I(k)])
            else:
                v.append([some(r, c["ty"], depth + 1, k)])
        return {"c": v, "a": r.choice([[[[1, 2]]], [[], [[3]]]]) if ty["ext"] and r.random() < .05 else []}
    if t == "choice":
        alts = [i for i, a in enumerate(ty["a"]) if not a["x"] or r.random() < .1]
        i = r.choice(alts or [0])
        return {"i": i + 1, "v": some(r, ty["a"][i]["ty"], depth + 1, key)}
    if t == "open":
        alts = [i for i, a in enumerate(ty["a"]) if key is not None and U.num(a["k"]) == key] or list(range(len(ty["a"])))
        i = r.choice(alts)
        return {"i": i + 1, "v": some(r, ty["a"][i]["ty"], depth + 1, key)}
    if t == "seqof":
        lb, ub = U.bound(ty["lb"]) or 0, U.bound(ty["ub"])
        n = lb + r.choice([0, 1, 2, 5, 12] if depth < 2 else [0, 1])
        n = min(n, ub) if ub is not None else n
        if ub is not None and ub <= (40 if depth < 2 else 3) and r.random() < .2:
            n = ub
        if r.random() < .02:
            n = max(0, n + r.choice([-1, 1]))
        return [some(r, ty["of"], depth + 1, key) for _ in range(n)]
    return r.choice((t != "utf" and U.odd(ty)) or U.good(ty)) if r.random() < .02 else r.choice(U.good(ty) or [U.rand_value(r, ty)])


def values(r, ty, n):
    if ty["t"] not in ("seq", "choice", "seqof", "open"):
        return U.uniq(U.good(ty, None, 20) + (U.odd(ty) if ty["t"] != "utf" else []))
    out = [some(r, ty) for _ in range(4 * n)]
    out.sort(key=lambda v: len(json.dumps(v)) > 3000)
    return U.uniq(out[:n])


class Generated(derived.Universe):
    """A universe whose Rust types are what the compiler generates."""

    def __init__(self, check, name, mods, r, nvals, nwires, refusable=False):
        self.parts = modules_to_send(check, name, mods, r, refusable)
        rs = os.path.join(check.work, name + ".rs")
        while True:
            lines = self.write(rs)
            rc, out = check.cargo(derived.CRATE, {"TYPES_RS": rs})
            if rc == 0:
                break
            # those that have errors
            at = set()
            for m in re.finditer(r"^error[^\n]*\n\s*--> %s:(\d+)" % re.escape(rs), out, re.M):
                at |= {n for n, (a, b) in lines.items() if a <= int(m.group(1)) < b}
            if not at:
                check.violation("the generated code of %s does not compile" % name, {"family": name, "errors": out[:6000], "files": [p[3] for p in self.parts]})
                self.parts = []
                return
            for p in self.parts:
                if p[0] in at:
                    check.violation("modules %r" % " ".join(" ".join(p[3]).split())[:400], {"family": name, "wrong": "the code does not compile", "files": p[3], "code": p[1], "errors": out[:6000]})
            self.parts = [p for p in self.parts if p[0] not in at]
        super().__init__(check, name, [derived.entry(u, None, 10 ** 6, nwires, r, vals=values(r, u, nvals)) for p in self.parts for _, u in p[2]])
        self.bin = os.path.join(self.dir, "harness")
        shutil.copy(os.path.join(TARGET, "debug", "types-harness"), self.bin)

    def write(self, path):
        text, lines = "use asn1_codecs::aper::AperCodec;\nuse std::convert::TryFrom;\n", {}
        for n, code, types, _ in self.parts:
            a = text.count("\n") + 1
            text += code + "\n"
            lines[n] = (a, text.count("\n") + 1)
        table = ["m%d::%s" % (p[0], asn.rust_type(ty)) for p in self.parts for ty, _ in p[2]]
        text += "pub fn table() -> Vec<Entry> { vec![%s] }\n" % ", ".join("Entry { enc: enc::<%s>, dec: dec::<%s> }" % (n, n) for n in table)
        with open(path, "w") as f:
            f.write(text)
        return lines


def send(check, name, mods, r, nvals=12, nwires=4, refusable=False):
    u = Generated(check, name, mods, r, nvals, nwires, refusable)
    if u.parts:
        u.replay(name + "-sent", ["lib", "peer", "wire"], (0,) if not check.deep else (0, 3))


RUST = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn
 abstract become box do final macro override priv typeof unsized virtual yield try gen union auto default raw
 option some none ok err result string vec box drop clone copy send sync debug default from into iterator eq ord hash fn-once to-string as-ref sized any u8 i64 u128 usize bool str char f64
 core std alloc asn1-codecs asn1-codecs-derive bitvec log data value key decode encode aper aper-codec aper-codec-data aper-codec-error error output bit-vec msb0 lsb0 order entry bits len index id test
 j i u e t x a-b a-b-c a1 a-1 optional integer-2 b-o-o-l-e-a-n""".split()


def names(r):
    """Definitions whose names mean something in Rust or to the generated code."""
    out = []
    for k, n in enumerate(dict.fromkeys(RUST)):
        up = n[:1].upper() + n[1:]
        camel = "".join(w[:1].upper() + w[1:] for w in n.split("-"))
        null = {"k": "null"}
        inner = {"k": "seq", "comps": [{"n": "q", "ty": {"k": "bool"}, "o": "O", "g": 0}], "x": False, "adds": [], "mm": False, "more": []}
        small = {"k": "int", "cons": [{"u": [[{"e": "r", "lo": {"i": 0}, "loi": True, "hi": {"i": 9}, "hii": True}]], "x": False, "a": []}]}
        t = lambda n, ty: {"d": "type", "n": n, "params": [], "ty": ty}
        c = lambda n, ty, o="": {"n": n, "ty": ty, "o": o, "g": 0}
        ref = lambda n: {"k": "ref", "n": n, "args": [], "cons": []}
        seq = lambda *cs: {"k": "seq", "comps": list(cs), "x": False, "adds": [], "mm": False, "more": []}
        choice = lambda *cs: {"k": "choice", "alts": list(cs), "x": False, "adds": []}
        enum = lambda *ns: {"k": "enum", "items": [{"n": i, "num": []} for i in ns], "x": False, "adds": []}
        one = lambda *ds: [{"n": "M", "imports": [], "defs": list(ds)}]
        out.append(one(t("Tone", seq(c(n, null), c("zz", inner, "O")))))
        out.append(one(t("Tone", choice(c(n, inner), c("zz", small)))))
        out.append(one(t("Tone", enum(n, "zz"))))
        for name in dict.fromkeys([up, camel]):
            body = [small, inner, choice(c("zz", null), c("yy", {"k": "oct", "cons": []})), enum("zz", "yy"), {"k": "of", "cons": [], "of": null}, {"k": "bit", "cons": []}][k % 6]
            out.append(one(t(name, body), t("Tone", seq(c("zz", ref(name)), c("yy", {"k": "str", "kind": "UTF8String", "cons": []}, "O"), c("xx", {"k": "bit", "cons": []})))))
    return out


def from_family(check, r, n, name, module, consts, invariants=("Told",), substs=(), **kw):
    """Modules of one of the families of the compiler."""
    specs = [s["mods"] for s in compiler.family(check, name, module, consts, invariants, "", substs, **kw) if s["v"] == "ok"]
    specs.sort(key=lambda s: json.dumps(s, sort_keys=True))
    return r.sample(specs, min(n, len(specs)))


def a12(check):
    check.build(compiler.CRATE)
    check.assumptions += ["random modules of about ten definitions; IA5String, OBJECT IDENTIFIER and alphabets are outside of what the derive macros support"]
    r = random.Random("a12 %d" % check.seed)
    deep = check.deep
    send(check, "random", [Modules(r, r.choice([1, 2, 3]), r.choice([3, 5, 8])).modules() for _ in range(150 if deep else 20)], r)
    named = names(r)
    send(check, "names", named if deep else named[check.seed % 5::5], r, 4, 1, True)


CHECKS = {"A12": a12}
