"""Types built of types: a universe of them, values to send, octets to receive, and the Rust code that
holds them (definitions for the derive macros, conversions from and to the JSON of the specification)."""
import json, random

def I(k):
    m = abs(k)
    return {"n": k < 0, "m": list(m.to_bytes((m.bit_length() + 7) // 8, "big"))}

def num(x):
    return (-1 if x["n"] else 1) * int.from_bytes(bytes(x["m"]), "big")

def B(x):
    return [] if x is None else [I(x)]

def bound(b):
    return num(b[0]) if b else None

CARRIERS = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
            "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1)}

# ------------------------------------------------------------------ types

def carrier_for(lb, ub, ext=False):
    if lb is None or ub is None or ext:
        return "i128"
    for c in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"):
        lo, hi = CARRIERS[c]
        if lo <= lb and ub <= hi:
            return c
    return "i128"

def INT(lb=None, ub=None, ext=False, c=None):
    c = c or carrier_for(lb, ub, ext)
    return {"t": "int", "lb": B(lb), "ub": B(ub), "ext": ext, "clo": I(CARRIERS[c][0]), "chi": I(CARRIERS[c][1]), "rt": c}

def ENUM(n, ext=False, c="u8"):
    return {"t": "enum", "lb": B(0), "ub": B(n - 1), "ext": ext, "clo": I(CARRIERS[c][0]), "chi": I(CARRIERS[c][1]), "rt": c}

def STR(t, lb=None, ub=None, ext=False):
    return {"t": t, "lb": B(lb), "ub": B(ub), "ext": ext}

BOOL = {"t": "bool"}
NULL = {"t": "null"}

def C(ty, opt=False, key=False):
    return {"ty": ty, "opt": opt, "key": key}

def SEQ(*c, ext=False):
    return {"t": "seq", "ext": ext, "c": [x if "ty" in x else C(x) for x in c]}

def OF(of, lb=None, ub=None, ext=False):
    return {"t": "seqof", "lb": B(lb), "ub": B(ub), "ext": ext, "of": of}

def CHOICE(*a, ext=False, adds=(), keys=None, ub=None):
    keys = keys or list(range(len(a)))
    alts = [{"k": k, "x": False, "ty": t} for k, t in zip(keys, a)] + [{"k": i, "x": True, "ty": t} for i, t in enumerate(adds)]
    return {"t": "choice", "ext": ext, "ub": max(keys) if ub is None else ub, "a": alts}

def OPEN(alts):
    return {"t": "open", "a": [{"k": I(k), "ty": t} for k, t in alts]}

# ------------------------------------------------------------------ random types

def rand_size(r):
    return r.choice([(None, None, False)] * 3 + [(n, n, False) for n in (0, 1, 2, 3, 5)] + [(0, 1, False), (0, 3, False), (1, 4, False), (1, 16, False), (2, 40, False),
                     (0, 255, False), (1, 256, False), (1, 65535, False), (0, 65536, False), (1, None, False), (1, 3, True), (2, 2, True), (0, 200, True)])

def rand_prim(r):
    k = r.randrange(12)
    if k < 4:
        lb, ub = r.choice([(0, 0), (0, 1), (0, 7), (0, 100), (0, 254), (0, 255), (0, 256), (0, 65535), (0, 65536), (0, 2**32 - 1), (1, 2**24), (0, 2**64 - 1),
                           (-1, 1), (-128, 127), (-500, 700), (-2**31, 2**31 - 1), (-2**63, 2**63 - 1), (5, 5), (1000, 1003), (None, None), (0, None), (-3, None), (10, None)])
        return INT(lb, ub, r.random() < .25, None if r.random() < .85 else r.choice(list(CARRIERS)))
    if k == 4:
        return BOOL
    if k == 5:
        return ENUM(r.choice([1, 2, 3, 4, 9, 64]), r.random() < .4)
    if k == 6:
        return NULL
    return STR(r.choice(["bit", "oct", "bit", "oct", "vis", "prt", "utf"]), *rand_size(r))

def rand_type(r, depth):
    k = r.randrange(10)
    if depth == 0 or k < 2:
        return rand_prim(r)
    if k < 5:
        n = r.choice([0, 1, 2, 3, 3, 4, 5])
        c = [C(rand_type(r, depth - 1), r.random() < .4) for _ in range(n)]
        if r.random() < .25:                     # an open type with its key
            ks = r.sample([0, 1, 2, 3, 7, 11, 255], 3)
            c.append(C(INT(0, 255, False, r.choice(["u8", "u16"])) if r.random() < .7 else ENUM(12), r.random() < .15, True))
            if r.random() < .5:
                c.append(C(rand_prim(r), r.random() < .4))
            ks = [k for k in ks if k < 12 or c[-1]["ty"]["t"] == "int"] or [1]
            c.append(C(OPEN([(k, rand_type(r, depth - 1)) for k in ks]), r.random() < .3))
        return SEQ(*c, ext=r.random() < .4)
    if k < 7:
        ext = r.random() < .4
        n = r.choice([1, 2, 3, 4, 5])
        return CHOICE(*[rand_type(r, depth - 1) for _ in range(n)], ext=ext,
                      adds=[rand_type(r, depth - 1) for _ in range(r.choice([0, 1, 2]))] if ext else ())
    return OF(rand_type(r, depth - 1), *rand_size(r))

# ------------------------------------------------------------------ values

def uniq(xs):
    seen, out = set(), []
    for x in xs:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out

def pat_bits(n, k):
    return [(((i * i) + i // 3 + k) % 7) % 2 for i in range(1, n + 1)]

def pat_octets(n, k):
    return [(i * 37 + k * 101 + 129) % 256 for i in range(1, n + 1)]

def pat_chars(n, k):
    return [32 + (i * 7 + k * 13) % 95 for i in range(1, n + 1)]

def sizes(ty):
    lb, ub = bound(ty["lb"]) or 0, bound(ty["ub"])
    c = [lb, lb + 1, lb + 2] + ([ub, ub - 1] if ub is not None else [3, 5])
    return sorted({n for n in c if n >= lb and (ub is None or n <= ub) and n <= 300})

def bad_sizes(ty):
    lb, ub = bound(ty["lb"]), bound(ty["ub"])
    return [n for n in ([lb - 1] if lb else []) + ([ub + 1, ub + 2] if ub is not None and ub < 300 else []) if n >= 0]

def strings(ty, ns):
    f = {"bit": pat_bits, "oct": pat_octets}.get(ty["t"], pat_chars)
    return [f(n, k) for n in ns for k in (0, 1)]

def good(ty, key=None, lim=12):
    """Values of the type that can be sent."""
    t = ty["t"]
    if t == "bool":
        return [True, False]
    if t == "null":
        return [0]
    if t in ("int", "enum"):
        lb, ub = bound(ty["lb"]), bound(ty["ub"])
        lo, hi = num(ty["clo"]), min(num(ty["chi"]), 2**127 - 1)
        if lb is None:
            ub = None
        c = []
        for e in ([lb, lb + 1] if lb is not None else []) + ([ub, ub - 1, (lb + ub) // 2] if ub is not None else []) + [0, 1, -1, 127, 128, 255, 256, 65535, 65536, lo, hi, -129, -32769, 2**40]:
            if lo <= e <= hi and (lb is None or e >= lb) and (ub is None or e <= ub) and (lb is None or e - lb < 2**127):
                c.append(e)
        return [I(x) for x in dict.fromkeys(c)][:lim]
    if t == "utf":
        lb, ub = bound(ty["lb"]) or 0, bound(ty["ub"])
        alpha = [[65], [0xc3, 0xa9], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80], [122]]
        return [sum((alpha[(i + k) % 5] for i in range(n)), []) for n in sizes(ty) for k in (0, 1)][:lim]
    if t in ("bit", "oct", "vis", "prt"):
        return strings(ty, sizes(ty))[:lim]
    if t == "seq":
        cs = ty["c"]
        opts = [i for i, c in enumerate(cs) if c["opt"]]
        pats = [set(opts), set()] + [{o} for o in opts] + [set(opts) - {o} for o in opts]
        if len(opts) <= 3:
            pats += [{o for b, o in enumerate(opts) if m >> b & 1} for m in range(2 ** len(opts))]
        pats = uniq([sorted(p) for p in pats])
        out = []
        for n, pat in enumerate(pats):
            width, j = 1, 0
            while j < width and j < (lim if n == 0 else 3):
                v, k = [], key
                for i, c in enumerate(cs):
                    if c["opt"] and i not in pat:
                        v.append([])
                        continue
                    if c["key"]:
                        ks = keys_after(cs, i) or [0]
                        ks = [x for x in ks if num(c["ty"]["clo"]) <= x <= num(c["ty"]["chi"])] or [0]
                        # with all values of each alternative
                        vals = []
                        for x in ks:
                            vals += [I(x)] * max([1] + [len(good(d["ty"], x, 4)) for d in cs[i + 1:] if d["ty"]["t"] == "open"])
                        x = vals[j % len(vals)]
                        width = max(width, min(len(vals), lim))
                        k = num(x)
                    else:
                        vals = good(c["ty"], k, lim)
                        if not vals:
                            break
                        width = max(width, min(len(vals), lim))
                        x = vals[(j + i) % len(vals)] if c["ty"]["t"] != "open" else vals[j % len(vals)]
                    v.append([x])
                else:
                    out.append({"c": v, "a": []})
                j += 1
        return uniq(out)
    if t == "seqof":
        items = good(ty["of"], key, lim)
        ns = [n for n in sizes(ty) if n <= 40 or ty["of"]["t"] in ("null", "bool", "int")]
        return uniq([[items[(i + k) % len(items)] for i in range(n)] for n in ns for k in (0, 1) if items or n == 0])[:lim]
    if t == "choice":
        return [{"i": i + 1, "v": v} for i, a in enumerate(ty["a"]) if not a["x"] for v in good(a["ty"], key, lim)]
    if t == "open":
        alts = [(i, a) for i, a in enumerate(ty["a"]) if key is None or num(a["k"]) == key] or list(enumerate(ty["a"]))[:1]
        return [{"i": i + 1, "v": v} for i, a in alts for v in good(a["ty"], num(a["k"]), lim)]

def keys_after(cs, i):
    out = []
    def walk(ty):
        if ty["t"] == "open":
            out.extend(num(a["k"]) for a in ty["a"])
        elif ty["t"] == "seq":
            for c in ty["c"]:
                walk(c["ty"])
        elif ty["t"] == "seqof":
            walk(ty["of"])
        elif ty["t"] == "choice":
            for a in ty["a"]:
                walk(a["ty"])
    for c in cs[i + 1:]:
        walk(c["ty"])
    return list(dict.fromkeys(out))

def odd(ty, key=None, lim=6):
    """Values with one thing in them that does not fit: out of bounds or size, an extension, the wrong key."""
    t = ty["t"]
    if t == "int":
        lb, ub = bound(ty["lb"]), bound(ty["ub"])
        lo, hi = num(ty["clo"]), num(ty["chi"])
        c = []
        if lb is not None:
            c += [lb - 1, lb - 256] + ([ub + 1, ub + 256, lb + 65536 + ub] if ub is not None else [])
        c += [lo - 1, hi + 1, hi, lo, hi + 256, 2**127, -2**127]
        if lb is not None and ub is None:
            c = [x for x in c if x < lb or x > hi]
        elif lb is not None:
            c = [x for x in c if x < lb or x > ub]
        return [I(x) for x in dict.fromkeys(c) if (-2**127 <= x < 2**127 or lo <= x <= hi)]
    if t == "enum":
        n = bound(ty["ub"]) + 1
        return [I(x) for x in (n, n + 1, n + 5, 64, 255, 256, -1) if x >= n and x - n < 64 or x < 0]
    if t in ("bit", "oct", "vis", "prt"):
        return strings(ty, bad_sizes(ty))
    if t == "utf":
        return [[65] * n for n in bad_sizes(ty)] + [[0xc3, 0xa9] * n for n in bad_sizes(ty)]
    if t == "seq":
        g = good(ty, key, 3)
        if not g:
            return []
        out = []
        if ty["ext"]:
            for a in ([[[1]]], [[], [[7, 8]]], [[[]], [], [[0]]], [[] for _ in range(63)] + [[[9]]], [[] for _ in range(64)] + [[[9]]],
                      [[[5] * 127], [[6] * 130]], [[[3]], [[4, 4]], [[5, 5, 5]]]):
                out += [dict(v, a=a) for v in g[:3]]
        for i, c in enumerate(ty["c"]):
            full = next((v for v in g if v["c"][i]), None)
            if full is None:
                continue
            k = key
            for j in range(i):
                if ty["c"][j]["key"] and full["c"][j]:
                    k = num(full["c"][j][0])
            alts = odd(c["ty"], k, lim)
            if c["key"]:
                alts = alts + [I(x) for x in (199, 6) if num(c["ty"]["clo"]) <= x <= num(c["ty"]["chi"])]
            for x in alts:
                out.append({"c": full["c"][:i] + [[x]] + full["c"][i + 1:], "a": []})
        return out
    if t == "seqof":
        items = good(ty["of"], key, 4)
        if not items:
            return []
        out = [[items[i % len(items)] for i in range(n)] for n in bad_sizes(ty)]
        ns = [n for n in sizes(ty) if 0 < n <= 10]
        for n in ns[:2]:
            for x in odd(ty["of"], key, lim)[:lim]:
                out.append([items[i % len(items)] for i in range(n - 1)] + [x])
                out.append([x] + [items[i % len(items)] for i in range(n - 1)])
        return out
    if t == "choice":
        out = [{"i": i + 1, "v": v} for i, a in enumerate(ty["a"]) for v in (odd(a["ty"], key, lim) + (good(a["ty"], key, 3) if a["x"] else []))]
        if ty["ext"]:
            out += [{"i": 0, "k": k, "v": o} for k, o in ((0, [1]), (5, []), (63, [1, 2, 3]))]
        return out
    if t == "open":
        out = [{"i": i + 1, "v": v} for i, a in enumerate(ty["a"]) for v in odd(a["ty"], num(a["k"]), lim) if key is None or key == num(a["k"])]
        out += [{"i": i + 1, "v": v} for i, a in enumerate(ty["a"]) if key is not None and key != num(a["k"]) for v in good(a["ty"], num(a["k"]), 2)]
        return out
    return []

def rand_value(r, ty, key=None, wild=.02):
    """A random value, now and then one that does not fit; only what the library can hold."""
    t = ty["t"]
    if t == "bool":
        return r.random() < .5
    if t == "null":
        return 0
    if t in ("int", "enum"):
        lb, ub = bound(ty["lb"]), bound(ty["ub"])
        lo, hi = num(ty["clo"]), min(num(ty["chi"]), 2**127 - 1)
        if r.random() < wild or lb is None:
            a, b = lo, hi
        else:
            a, b = max(lb, lo), min(hi, ub if ub is not None else lb + 2**r.choice([3, 8, 20, 60, 126]))
        if a > b:
            a, b = lo, hi
        span = b - a
        return I(a + r.choice([0, span, min(span, 1), r.randint(0, span), min(span, r.randint(0, 300)), max(0, span - r.randint(0, 300)), min(span, 2**r.randint(0, 126))]))
    if t in ("bit", "oct", "vis", "prt", "utf", "seqof"):
        lb, ub = bound(ty["lb"]) or 0, bound(ty["ub"])
        top = lb + r.choice([0, 1, 3, 10, 20 if t == "seqof" else 140])
        if ub is not None:
            top = min(top, ub)
        n = r.randint(lb, top)
        if ub is not None and ub < 100 and r.random() < .1:
            n = ub
        if r.random() < wild and n < 200:
            n = n + r.choice([-1, 1, 2])
        n = max(0, n)
        if t == "bit":
            return [r.randint(0, 1) for _ in range(n)]
        if t == "oct":
            return [r.randint(0, 255) for _ in range(n)]
        if t == "utf":
            return sum((r.choice([[r.randint(32, 126)], [0xc3, r.randint(0x80, 0xbf)], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80]]) for _ in range(n)), [])
        if t != "seqof":
            return [r.randint(32, 126) for _ in range(n)]
        return [rand_value(r, ty["of"], key, wild) for _ in range(n)]
    if t == "seq":
        v, k = [], key
        for i, c in enumerate(ty["c"]):
            if c["opt"] and r.random() < .4:
                v.append([])
            elif c["key"]:
                ks = [x for x in keys_after(ty["c"], i) if num(c["ty"]["clo"]) <= x <= num(c["ty"]["chi"])] or [0]
                x = r.choice(ks)
                v.append([I(x)])
                k = x
            else:
                v.append([rand_value(r, c["ty"], k, wild)])
        return {"c": v, "a": []}
    if t == "choice":
        i = r.choice([i for i, a in enumerate(ty["a"]) if not a["x"] or r.random() < wild] or [0])
        return {"i": i + 1, "v": rand_value(r, ty["a"][i]["ty"], key, wild)}
    if t == "open":
        alts = [i for i, a in enumerate(ty["a"]) if num(a["k"]) == key]
        i = alts[0] if alts and r.random() >= wild else r.randrange(len(ty["a"]))
        return {"i": i + 1, "v": rand_value(r, ty["a"][i]["ty"], num(ty["a"][i]["k"]), wild)}

def rand_wire(r):
    n = r.choice([0, 1, 2, 3, 4, 6, 8, 12, 20, 40])
    style = r.randrange(4)
    if style == 0:
        return [r.randint(0, 255) for _ in range(n)]
    if style == 1:
        return [r.choice([0, 0, 0, 1, 2, 3, 64, 128, 255]) for _ in range(n)]
    if style == 2:
        return [r.choice([0, 1, 2, 4, 8, 16, 32, 64, 128]) for _ in range(n)]
    return [r.choice([192, 193, 196, 200, 255, 129, 128, 0, 1]) for _ in range(n)]

# ------------------------------------------------------------------ the Rust side

RT = {"bit": "BitVec<u8, Msb0>", "oct": "Vec<u8>", "vis": "String", "prt": "String", "utf": "String"}
ASN = {"bit": "BITSTRING", "oct": "OCTET-STRING", "vis": "VisibleString", "prt": "PrintableString", "utf": "UTF8String"}

class Rust:
    """Names every type and writes its definition for the derive macros."""
    def __init__(self):
        self.n, self.defs, self.convs, self.seen = 0, [], [], {}

    def add(self, ty):
        key = json.dumps(ty, sort_keys=True)
        if key in self.seen:
            return self.seen[key]
        t = ty["t"]
        subs = []
        if t == "seq":
            subs = [self.add(c["ty"]) for c in ty["c"]]
        elif t in ("choice", "open"):
            subs = [self.add(a["ty"]) for a in ty["a"]]
        elif t == "seqof":
            subs = [self.add(ty["of"])]
        self.n += 1
        name = "T%d" % self.n
        self.seen[key] = name
        attr = []
        b = lambda k, f: attr.append('%s = "%d"' % (k, f)) if f is not None else None
        body = "pub struct %s;" % name
        if t in ("int", "enum"):
            attr.append('type = "%s"' % ("INTEGER" if t == "int" else "ENUMERATED"))
            b("lb", bound(ty["lb"])), b("ub", bound(ty["ub"]))
            if ty["ext"]:
                attr.append("extensible = true")
            body = "pub struct %s(pub %s);" % (name, ty["rt"])
            conv = prim_conv(name, "int:" + ty["rt"])
        elif t == "bool":
            attr.append('type = "BOOLEAN"')
            body, conv = "pub struct %s(pub bool);" % name, prim_conv(name, "bool")
        elif t == "null":
            attr.append('type = "NULL"')
            conv = prim_conv(name, "null")
        elif t in RT:
            attr.append('type = "%s"' % ASN[t])
            b("sz_lb", bound(ty["lb"])), b("sz_ub", bound(ty["ub"]))
            if ty["ext"]:
                attr.append("sz_extensible = true")
            body, conv = "pub struct %s(pub %s);" % (name, RT[t]), prim_conv(name, t)
        elif t == "seqof":
            attr.append('type = "SEQUENCE-OF"')
            b("sz_lb", bound(ty["lb"])), b("sz_ub", bound(ty["ub"]))
            if ty["ext"]:
                attr.append("sz_extensible = true")
            body, conv = "pub struct %s(pub Vec<%s>);" % (name, subs[0]), of_conv(name, subs[0])
        elif t == "seq":
            attr.append('type = "SEQUENCE"')
            attr.append("extensible = %s" % str(ty["ext"]).lower())
            nopt = sum(c["opt"] for c in ty["c"])
            if nopt:
                attr.append("optional_fields = %d" % nopt)
            fs, k = [], 0
            for i, c in enumerate(ty["c"]):
                a = []
                if c["opt"]:
                    a.append("optional_idx = %d" % k)
                    k += 1
                if c["key"]:
                    a.append("key_field = true")
                at = "    #[asn(%s)]\n" % ", ".join(a) if a else ""
                fs.append("%s    pub f%d: %s," % (at, i, "Option<%s>" % subs[i] if c["opt"] else subs[i]))
            body = "pub struct %s {\n%s\n}" % (name, "\n".join(fs))
            conv = seq_conv(name, [("f%d" % i, subs[i], c["opt"]) for i, c in enumerate(ty["c"])])
        elif t == "choice":
            attr += ['type = "CHOICE"', 'lb = "0"', 'ub = "%d"' % ty["ub"], "extensible = %s" % str(ty["ext"]).lower()]
            vs = ["    #[asn(key = %d, extended = %s)]\n    V%d(%s)," % (a["k"], str(a["x"]).lower(), i, subs[i]) for i, a in enumerate(ty["a"])]
            body, conv = "pub enum %s {\n%s\n}" % (name, "\n".join(vs)), enum_conv(name, [("V%d" % i, s) for i, s in enumerate(subs)])
        elif t == "open":
            attr.append('type = "OPEN"')
            vs = ["    #[asn(key = %d)]\n    V%d(%s)," % (num(a["k"]), i, subs[i]) for i, a in enumerate(ty["a"])]
            body, conv = "pub enum %s {\n%s\n}" % (name, "\n".join(vs)), enum_conv(name, [("V%d" % i, s) for i, s in enumerate(subs)])
        self.defs.append("#[derive(asn1_codecs_derive::AperCodec, Debug)]\n#[asn(%s)]\n%s\n" % (", ".join(attr), body))
        self.convs.append(conv)
        return name

def prim_conv(name, kind):
    if kind.startswith("int:"):
        c = kind[4:]
        if c == "u128":
            f, t = "Some(%s(ju128(v)?))" % name, "u128_j(self.0)"
        else:
            f, t = "Some(%s(<%s>::try_from(jint(v)?).ok()?))" % (name, c), "int_j(self.0 as i128)"
    elif kind == "bool":
        f, t = "Some(%s(v.as_bool()?))" % name, "::serde_json::Value::from(self.0)"
    elif kind == "null":
        f, t = "v.as_u64().map(|_| %s)" % name, "::serde_json::Value::from(0)"
    elif kind == "bit":
        f, t = "Some(%s(jbits(v)))" % name, "bits_j(&self.0)"
    elif kind == "oct":
        f, t = "Some(%s(joctets(v)))" % name, "::serde_json::Value::from(self.0.clone())"
    else:
        f, t = "Some(%s(String::from_utf8(joctets(v)).ok()?))" % name, "::serde_json::Value::from(self.0.clone().into_bytes())"
    return "impl crate::J for %s {\n fn from(v: &::serde_json::Value) -> Option<Self> { %s }\n fn to(&self) -> ::serde_json::Value { %s }\n}\n" % (name, f, t)

def of_conv(name, sub):
    return ("impl crate::J for %s {\n fn from(v: &::serde_json::Value) -> Option<Self> { Some(%s(v.as_array()?.iter().map(<%s as crate::J>::from).collect::<Option<Vec<_>>>()?)) }\n"
            " fn to(&self) -> ::serde_json::Value { ::serde_json::Value::from(self.0.iter().map(|x| x.to()).collect::<Vec<_>>()) }\n}\n" % (name, name, sub))

def seq_conv(name, fields):
    fr = "".join(("%s: match v[\"c\"][%d].as_array()?.first() { Some(x) => Some(<%s as crate::J>::from(x)?), None => None }, " if o else
                  "%s: { let x = v[\"c\"][%d].as_array()?.first()?; <%s as crate::J>::from(x)? }, ") % (f, i, s) for i, (f, s, o) in enumerate(fields))
    to = "".join(("match &self.%s { Some(x) => ::serde_json::json!([x.to()]), None => ::serde_json::json!([]) }, " if o else "::serde_json::json!([self.%s.to()]), ") % f for f, s, o in fields)
    return ("impl crate::J for %s {\n fn from(v: &::serde_json::Value) -> Option<Self> { if !v[\"a\"].as_array()?.is_empty() { return None; } Some(%s { %s}) }\n"
            " fn to(&self) -> ::serde_json::Value { ::serde_json::json!({\"c\": Vec::<::serde_json::Value>::from([%s]), \"a\": []}) }\n}\n" % (name, name, fr, to))

def enum_conv(name, variants):
    fr = "".join("%d => Some(%s::%s(<%s as crate::J>::from(x)?)), " % (i + 1, name, v, s) for i, (v, s) in enumerate(variants))
    to = "".join("%s::%s(x) => ::serde_json::json!({\"i\": %d, \"v\": x.to()}), " % (name, v, i + 1) for i, (v, s) in enumerate(variants))
    body = "match *self { %s}" % to if not variants else "match self { %s}" % to
    return ("#[allow(unused_variables)]\nimpl crate::J for %s {\n fn from(v: &::serde_json::Value) -> Option<Self> { let x = &v[\"v\"]; match v[\"i\"].as_u64()? { %s_ => None } }\n fn to(&self) -> ::serde_json::Value { %s }\n}\n"
            % (name, fr, body))

def module(types):
    """The Rust file for a list of types."""
    r = Rust()
    names = [r.add(t) for t in types]
    return ("use asn1_codecs::aper::AperCodec;\nuse std::convert::TryFrom;\n" + "\n".join(r.defs) + "\n" + "\n".join(r.convs) +
            "\npub fn table() -> Vec<Entry> { vec![%s] }\n" % ", ".join("Entry { enc: enc::<%s>, dec: dec::<%s> }" % (n, n) for n in names))
