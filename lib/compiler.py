"""A02-A11, A13: the compiler against Asn1.tla."""
import concurrent.futures, json, os, random, re, stat, subprocess
import asn
from common import *

CRATE = os.path.join(VERIF, "harness", "compiler")
BIN = os.path.join(TARGET, "debug", "compiler-harness")
SHARDS = 8


def shim(check):
    """A directory with a `rustfmt` that only copies: formatting is not what is judged, and it is slow."""
    d = os.path.join(check.work, "shim")
    if not os.path.isdir(d):
        os.makedirs(d)
        p = os.path.join(d, "rustfmt")
        with open(p, "w") as f:
            f.write("#!/bin/sh\nexec cat\n")
        os.chmod(p, 0o755)
    return d


MARK = re.compile(r"^\x01BEGIN (\d+)\n(.*?)\n\x01END (\d+) (ok|err|panic|hang)([^\n]*)\n", re.S | re.M)


def shard(check, d, name, k, cases):
    """[(verdict, message or code)] for the cases (lists of texts)."""
    out = [None] * len(cases)
    start = 0
    e = env({"PATH": d + ":" + os.environ["PATH"]})
    limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    while start < len(cases):
        path = os.path.join(check.work, "%s-%d.cases" % (name, k))
        with open(path, "w") as f:
            for n in range(start, len(cases)):
                f.write(json.dumps({"n": n + 1, "files": cases[n]}) + "\n")
        try:
            p = subprocess.run([BIN, "compile", path], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=700, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            raise ToolError("%s: compiling did not finish" % name)
        text = p.stdout.decode("utf-8", "replace")
        last = start
        for m in MARK.finditer(text):
            n = int(m.group(1))
            out[n - 1] = (m.group(4), m.group(2) if m.group(4) == "ok" else m.group(5).strip())
            last = n
        if last >= len(cases) and p.returncode == 0:
            break
        if out[last - 1 if last else 0] is not None and last > start and out[last - 1][0] == "hang":
            start = last
            continue
        if last >= len(cases):
            raise ToolError("%s: the harness ended with %d" % (name, p.returncode))
        out[last] = ("abort", "the process ended with %d" % p.returncode)
        start = last + 1
    return out


def compile_all(check, name, cases):
    """Compiles all the cases; a case is a list of texts of files."""
    d = shim(check)
    n = min(SHARDS, max(1, len(cases) // 20 + 1))
    parts = [cases[k::n] for k in range(n)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda k: shard(check, d, name, k, parts[k]), range(n)))
    res = [None] * len(cases)
    for k in range(n):
        res[k::n] = outs[k]
    return res


def wrong(spec, verdict, text):
    """None, or what is wrong with what the compiler did."""
    if verdict not in ("ok", "err"):
        return "%s: %s" % (verdict, text)
    if verdict == "err":
        return "refused: %s" % text if spec["v"] == "ok" else None
    if spec["v"] == "err":
        return "accepted"
    if spec.get("any"):
        return None
    try:
        asn.Match(spec["x"] or {}, text)
    except asn.Mismatch as e:
        return str(e)
    except asn.NotUnderstood as e:
        return "the code is not understood: %s" % e
    return None


def judge(check, name, specs, cases):
    results = compile_all(check, name, cases)
    count = {"ok": 0, "err": 0}
    for s, files, (verdict, text) in zip(specs, cases, results):
        w = wrong(s, verdict, text)
        count[verdict] = count.get(verdict, 0) + 1
        if w:
            check.violation("modules %r" % " ".join(" ".join(files).split())[:400],
                            {"family": name, "wrong": w, "expected": s["v"], "files": files, "code": text[:3000]})
    check.traces += len(specs)
    check.log("%s: %d compiled %s" % (name, len(specs), count))
    if specs:
        i = len(specs) // 2
        check.sample({"family": name, "files": cases[i], "expected": [specs[i]["v"], specs[i]["x"]]})


def family(check, name, module, consts, invariants, extra="", substs=(), **kw):
    """Runs TLC on a family of modules: [{mods, v, x, any}]."""
    text = "---- MODULE MC ----\nEXTENDS %s\n%s====\n" % (module, extra)
    cfg = "CONSTANTS\n" + "".join(" %s = %s\n" % c for c in consts) + "".join(" %s <- %s\n" % s for s in substs)
    if not consts and not substs:
        cfg = ""
    cfg += "SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % " ".join(invariants)
    out, seen = [], set()
    for p in check.tlc(("MC", text), cfg, name, **kw):
        if p.startswith("C ") and p not in seen:
            seen.add(p)
            out.append(json.loads(p[2:]))
    return out


def replay(check, name, module, consts=(), invariants=("Told",), substs=(), extra="", one_file=False, layout=True, **kw):
    specs = family(check, name, module, consts, invariants, extra, substs, **kw)
    specs.sort(key=lambda s: json.dumps(s, sort_keys=True))
    r = random.Random("%s %d" % (name, check.seed))
    cases = []
    for s in specs:
        t = asn.texts(s["mods"], r if layout and r.random() < .5 else None)
        if r.random() < .5:
            r.shuffle(t)
        cases.append(["".join(t)] if one_file or r.random() < .5 else t)
    judge(check, name, specs, cases)


# ------------------------------------------------------------ A03

INTS = ["int", "comp", "alt", "ref", "ref2", "param"]
SIZES = ["bit", "oct", "octo", "str", "of", "octref"]


def a03(check):
    check.build(CRATE)
    check.assumptions += ["constraints of up to the stated number of elements over the listed elements, in the listed places; longer ones sampled"]

    def run(name, where, many, most, **kw):
        replay(check, name, "Asn1Constraints", [("Most", most), ("Contexts", contexts(where))], ("Sane", "Told"),
               [("Numbers", "%sNumbers" % many), ("Sizes", "%sSizes" % many)], **kw)

    if check.deep:
        run("values", INTS, "Few", 3)
        run("many-values", ["int", "ref", "param"], "Many", 3)
        run("sizes", SIZES, "Few", 3)
        run("many-sizes", ["bit", "oct", "octo", "of"], "Many", 3)
    else:
        run("values", ["int"], "Few", 3)
        run("places", INTS[1:] + SIZES, "Few", 2)
        run("many", ["int", "oct", "octo"], "Many", 2)
    run("longer", INTS + SIZES, "Many", 6, simulate=("num=%d" % (160 if check.deep else 8), 9))


# ------------------------------------------------------------ A04

def contexts(cs):
    return "{%s}" % ", ".join('"%s"' % c for c in cs)


def a04(check):
    check.build(CRATE)
    check.assumptions += ["ranges between the limits of the integer types, and the numbers around them"]
    deep = check.deep
    replay(check, "definitions", "Asn1Numbers", [("Near", 3 if deep else 1), ("Contexts", contexts(["def"]))], ("Held", "Told"))
    replay(check, "places", "Asn1Numbers", [("Near", 1), ("Contexts", contexts(["comp", "value"]))], ("Held", "Told"))


# ------------------------------------------------------------ A05, A06, A07

def a05(check):
    check.build(CRATE)
    check.assumptions += ["SEQUENCEs of up to the stated number of components, whose types are of ten kinds in a fixed rotation"]
    every = ["def", "ref", "inner", "of", "choice", "param", "two"]
    inv = ("Mirrors", "Told")
    replay(check, "alone", "Asn1Sequences", [("Most", 4 if check.deep else 3), ("Contexts", contexts(["def"]))], inv)
    replay(check, "places", "Asn1Sequences", [("Most", 3 if check.deep else 2), ("Contexts", contexts(every[1:]))], inv)
    replay(check, "longer", "Asn1Sequences", [("Most", 8), ("Contexts", contexts(every))], inv, simulate=("num=%d" % (200 if check.deep else 15), 11))


def a06(check):
    check.build(CRATE)
    check.assumptions += ["CHOICEs of up to the stated number of alternatives, whose types are of nine kinds in a fixed rotation"]
    every = ["def", "ref", "inner", "seq", "param"]
    inv = ("Mirrors", "Told")
    replay(check, "all", "Asn1Choices", [("Most", 6 if check.deep else 4), ("Contexts", contexts(every))], inv)
    replay(check, "longer", "Asn1Choices", [("Most", 8), ("Contexts", contexts(every))], inv, simulate=("num=%d" % (200 if check.deep else 20), 10))


def a07(check):
    check.build(CRATE)
    check.assumptions += ["ENUMERATEDs of up to the stated number of items with the listed numbers"]
    every = ["def", "comp", "ref", "param"]
    inv = ("Numbered", "Told")
    replay(check, "alone", "Asn1Enums", [("Most", 5 if check.deep else 4), ("Contexts", contexts(["def"]))], inv, [("Numbers", "Few")])
    replay(check, "places", "Asn1Enums", [("Most", 3 if check.deep else 2), ("Contexts", contexts(every))], inv, [("Numbers", "Many")])
    replay(check, "longer", "Asn1Enums", [("Most", 8), ("Contexts", contexts(every))], inv, [("Numbers", "Many")], simulate=("num=%d" % (200 if check.deep else 15), 10))


# ------------------------------------------------------------ A08

def a08(check):
    check.build(CRATE)
    check.assumptions += ["the stated number of definitions of the listed shapes, dealt to up to three modules, with the listed faults of the imports"]
    inv = ("Confluent", "Stuck", "Told")

    def run(name, most, ways, deals, faults, shapes, **kw):
        replay(check, name, "Asn1References", [("Most", most), ("Ways", contexts(ways)), ("Deals", contexts(deals)), ("Faults", contexts(faults)), ("Shapes", contexts(shapes)),
                                               ("ValueShapes", contexts(["is", "as"]))], inv, **kw)

    every = ["bool", "range", "ref", "refc", "seq", "two", "of", "alt", "upto", "size", "item"]
    deals = ["one", "first", "last", "alternate", "three"]
    faults = ["none", "drop", "name", "module", "here", "twice"]
    if check.deep:
        run("one", 4, ["down"], ["one"], ["none"], ["range", "ref", "refc", "seq", "upto", "item"])
        run("several", 3, ["down"], deals[1:], ["none"], every)
        run("faults", 3, ["down"], deals[1:], faults[1:], ["range", "ref", "seq", "upto"])
        run("circles", 3, ["any"], ["one", "alternate"], ["none"], every)
    else:
        run("one", 3, ["down"], ["one"], ["none"], every)
        run("several", 3, ["down"], deals[1:], ["none"], ["ref", "range", "upto", "seq"])
        run("faults", 2, ["down"], ["first", "last"], faults, every)
        run("circles", 2, ["any"], ["one", "first"], ["none"], every)
    run("longer", 5, ["down"], deals, ["none", "none", "drop"], every, simulate=("num=%d" % (3000 if check.deep else 300), 7))


# ------------------------------------------------------------ A13

def a13(check):
    check.build(CRATE)
    check.assumptions += ["up to the stated number of value definitions of the listed types and literals, used in the listed places"]
    places = ["none", "upper", "lower", "both", "size", "item", "param", "inner"]
    kinds = ["int", "bool", "ref", "chain", "boolref", "enum", "cons", "refc", "nobody"]

    def run(name, most, literals, ks, ps, **kw):
        replay(check, name, "Asn1Values", [("Most", most), ("Kinds", contexts(ks)), ("Places", contexts(ps))], ("Told",), [("Literals", literals)], **kw)

    run("one", 1, "Every", kinds, places)
    if check.deep:
        run("two", 2, "Some1", kinds, places)
        run("every", 2, "Every", ["int", "ref", "bool"], ["upper", "both", "item"])
        run("chains", 4, "Numbers", ["int"], ["upper", "size", "item"])
    else:
        run("two", 2, "Some1", ["int", "ref", "bool"], ["none", "upper", "both", "item"])
        run("chains", 3, "Numbers", ["int"], places)
    run("longer", 5, "Every", kinds, places, simulate=("num=%d" % (100 if check.deep else 5), 7))


# ------------------------------------------------------------ A09

def a09(check):
    check.build(CRATE)
    check.assumptions += ["one class with an INTEGER identifier, up to the stated number of objects and elements of sets, the listed containers"]
    classes = ["full", "loose", "dflt", "crit", "bare"]
    shapes = ["plain", "opt", "both", "extra", "param", "two", "noat", "badat", "stale", "sets", "free", "crit", "nofield", "noset", "inadd"]
    every = [["1", "2", "200", "one", "two", "-1", ""], ["bool", "ref", "other", "seq", "int", "of", "nobody", ""], ["", "", "ref", "seq"]]

    def run(name, objects, elements, ids, types, extras, cs, ss, **kw):
        replay(check, name, "Asn1Objects", [("Objects", objects), ("Elements", elements), ("Ids", contexts(ids)), ("Types", contexts(types)), ("Extras", contexts(extras)),
                                            ("Classes", contexts(cs)), ("Shapes", contexts(ss))], ("Complete", "Told"), **kw)

    if check.deep:
        run("objects", 1, 2, *every, classes, shapes)
        run("pairs", 2, 2, ["1", "two", "200", ""], ["", "bool", "other"], ["", "ref"], ["full", "loose", "dflt"], ["plain", "both", "param", "extra"])
        run("sets", 2, 3, ["1", "2"], ["bool", "ref"], [""], ["full", "bare"], ["plain", "opt", "sets", "two", "param"])
    else:
        run("objects", 1, 1, *every, ["full", "dflt"], ["plain", "extra"])
        run("containers", 1, 1, ["one"], ["seq"], ["ref"], classes, shapes)
        run("sets", 2, 2, ["1", "2"], ["bool", "ref"], [""], ["full"], ["plain"])
    run("longer", 4, 5, *every, classes, shapes, simulate=("num=%d" % (3000 if check.deep else 60), 20))
    run("sound", 4, 5, ["1", "two", "200"], ["bool", "seq", "ref"], ["", "other"], classes, ["plain", "opt", "both", "extra", "param", "two"], simulate=("num=%d" % (3000 if check.deep else 80), 20))


# ------------------------------------------------------------ A10

def a10(check):
    check.build(CRATE)
    check.assumptions += ["one parameterized type with up to four dummies and the stated number of components, instantiated in the listed ways"]
    bodies = ["A", "B", "Ac", "Aof", "in", "n", "m", "nm", "e", "c", "P"]
    wraps, vias, faults = ["seq", "ext", "choice", "of", "alone"], ["direct", "inner", "two", "through", "same"], ["none", "short", "long", "kind"]

    def run(name, lists, bs, most, ws, vs, fs, **kw):
        replay(check, name, "Asn1Params", [("Bodies", contexts(bs)), ("Most", most), ("Wraps", contexts(ws)), ("Vias", contexts(vs)), ("Faults", contexts(fs))], ("Replaced", "Told"), [("ParamLists", lists)], **kw)

    if check.deep:
        run("bodies", "Lists", bodies, 2, wraps, ["direct"], ["none"])
        run("ways", "Lists", bodies, 1, wraps, vias, faults)
        run("sets", "ListsS", ["S", "A", "n"], 2, ["seq", "of", "ext"], vias, faults)
    else:
        run("bodies", "Lists", bodies, 1, wraps, ["direct"], ["none"])
        run("ways", "Lists", ["in", "nm", "B"], 1, ["seq"], vias[1:], faults)
        run("sets", "ListsS", ["S", "A"], 2, ["seq"], ["direct", "through", "same"], ["none"])
    run("longer", "Lists", bodies, 4, wraps, vias, ["none", "none"], simulate=("num=%d" % (3000 if check.deep else 150), 12))


CHECKS = {"A03": a03, "A04": a04, "A05": a05, "A06": a06, "A07": a07, "A08": a08, "A09": a09, "A10": a10, "A13": a13}
