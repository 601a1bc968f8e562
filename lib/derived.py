"""C10 - C15: derived codecs against AperMessages.tla / AperMessagesTrace.tla."""
import json, os, random, shutil
from common import *
import universe as U
from universe import INT, ENUM, STR, BOOL, NULL, C, SEQ, OF, CHOICE, OPEN

CRATE = os.path.join(VERIF, "harness", "types")
INVARIANTS = "INVARIANTS Delivered Declined Canonical Agree Confined Held Emitted\nCHECK_DEADLOCK FALSE\n"


def entry(ty, key=None, nvals=60, nwires=0, r=None, vals=None, odd=True):
    vs = U.uniq(U.good(ty, key) + (U.odd(ty, key) if odd else [])) if vals is None else vals
    if len(vs) > nvals:
        step = len(vs) / nvals
        vs = [vs[int(i * step)] for i in range(nvals)]
    ws = [] if not nwires else U.uniq([[], [0], [255], [128], [0, 0, 0, 0], [255] * 6] + [U.rand_wire(r) for _ in range(nwires)])[:nwires]
    return {"ty": ty, "key": U.B(key), "vals": vs, "wires": ws}


def strip(x):
    """Without what only the Rust side needs."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != "rt"}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


class Universe:
    def __init__(self, check, name, entries):
        self.check, self.name, self.entries = check, name, entries
        self.dir = os.path.join(check.work, "u-" + name)
        os.makedirs(self.dir)
        self.json = os.path.join(self.dir, "universe.json")
        with open(self.json, "w") as f:
            json.dump({"types": strip(entries)}, f)

    def build(self):
        rs = os.path.join(self.dir, "types.rs")
        with open(rs, "w") as f:
            f.write(U.module([e["ty"] for e in self.entries]))
        rc, out = self.check.cargo(CRATE, {"TYPES_RS": rs})
        if rc != 0:
            raise ToolError("the derived codecs do not compile:\n" + out[-3000:])
        self.bin = os.path.join(self.dir, "harness")
        shutil.copy(os.path.join(TARGET, "debug", "types-harness"), self.bin)

    def replay(self, name, modes, leads=(0,), cuts=(0,), flips=(0,), keep=lambda m: True):
        s = lambda xs: "{%s}" % ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs)
        cfg = "CONSTANTS\n Leads = %s\n Cuts = %s\n Flips = %s\n Modes = %s\n Emit = TRUE\nSPECIFICATION Spec\n" % (s(leads), s(cuts), s(flips), s(modes)) + INVARIANTS
        c = self.check
        printed = c.tlc("AperMessages", cfg, name, env_extra={"UNIVERSE": self.json})
        path = os.path.join(self.dir, name + ".ndjson")
        with open(path, "w") as f:
            f.writelines(p[2:] + "\n" for p in printed if p.startswith("B "))
        p = c.run([self.bin, "replay", self.json, path], timeout=800)
        if c.aborted(p, name):
            return
        lines = [json.loads(l) for l in p.stdout.splitlines()]
        done = [l for l in lines if "replayed" in l]
        bad = [l for l in lines if "what" in l]
        if not done and not any(l["what"] == "hang" for l in bad):
            # an abort (stack overflow, out of memory) of the code under test
            raise ToolError("replay of %s ended with %d: %s" % (name, p.returncode, p.stderr[-500:]))
        if done and not done[0]["replayed"]:
            raise ToolError("no behaviours in " + name)
        for m in bad:
            if m["what"] == "hold":
                raise ToolError("the harness cannot hold a value: %s" % json.dumps(m)[:500])
            if keep(m):
                c.violation("%s %s" % (m["what"], short(m.get("ty"))), m)
        if printed:
            b = json.loads(printed[len(printed) // 2][2:])
            c.sample({"family": name, "type": short(strip(self.entries[b["t"] - 1]["ty"])), "behaviour": b} if len(str(b)) < 1200 else {"family": name})
        c.traces += done[0]["replayed"] if done else 0
        os.remove(path)

    def record(self, name, n, damage=.3, wires=.3, keep=lambda m: True):
        c = self.check
        r = random.Random("%s %s %d" % (name, c.prop, c.seed))
        path = os.path.join(self.dir, name + ".jobs")
        with open(path, "w") as f:
            for _ in range(n):
                t = r.randrange(len(self.entries))
                e = self.entries[t]
                key = U.bound(e["key"])
                job = {"t": t + 1, "lead": r.choice([0, 0, 1, 3, 7]), "v": [], "cut": 0, "flip": 0, "bytes": []}
                if r.random() < wires:
                    job["bytes"] = U.rand_wire(r)
                else:
                    job["v"] = [U.rand_value(r, e["ty"], key)]
                    if r.random() < damage:
                        job["cut"] = r.choice([0, 0, 1, 2, 5])
                        job["flip"] = r.choice([0, r.randint(1, 16), r.randint(1, 200)])
                f.write(json.dumps(job) + "\n")
        p = c.run([self.bin, "record", self.json, path], timeout=600)
        if c.aborted(p, name):
            return
        traces = [json.loads(l) for l in p.stdout.splitlines()]
        for h in [t for t in traces if t.get("what") == "hang"]:
            c.violation("hang", h)
        if p.returncode != 0:
            raise ToolError("recording %s ended with %d: %s" % (name, p.returncode, p.stderr[-500:]))
        traces = [t for t in traces if "what" not in t]
        for t in [t for t in traces if "panic" in t["sent"] or "panic" in t["out"]]:
            c.violation("panic", dict(t, ty=strip(self.entries[t["t"] - 1]["ty"])))
        traces = [t for t in traces if not ("panic" in t["sent"] or "panic" in t["out"])]
        if len(traces) < n // 2:
            raise ToolError("only %d of %d traces recorded" % (len(traces), n))
        tp = os.path.join(self.dir, name + ".ndjson")
        with open(tp, "w") as f:
            f.writelines(json.dumps(t, separators=(",", ":")) + "\n" for t in traces)
        printed = c.tlc("AperMessagesTrace", "SPECIFICATION Spec\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n", name,
                        env_extra={"UNIVERSE": self.json, "TRACE_FILE": tp})
        ok = len([l for l in printed if l.startswith("D ")])
        bad = [json.loads(l[2:]) for l in printed if l.startswith("M ")]
        if ok + len(bad) != len(traces):
            raise ToolError("%s: %d traces, %d accepted, %d rejected" % (name, len(traces), ok, len(bad)))
        for m in bad:
            t = traces[m["n"] - 1]
            m.update(trace=t, real=t["sent"] if m["what"] == "encode" else t["out"], ty=strip(self.entries[t["t"] - 1]["ty"]))
            if keep(m):
                c.violation("%s %s" % (m["what"], short(m["ty"])), m)
        c.traces += ok


def short(ty):
    """A type as text."""
    if not ty:
        return ""
    t = ty["t"]
    rng = lambda: "(%s..%s%s)" % (U.bound(ty["lb"]), U.bound(ty["ub"]), ",..." if ty["ext"] else "") if ty["lb"] or ty["ub"] or ty["ext"] else ""
    if t == "seq":
        return "SEQ{%s%s}" % (" ".join(short(c["ty"]) + ("?" if c["opt"] else "") + ("@" if c["key"] else "") for c in ty["c"]), " ..." if ty["ext"] else "")
    if t == "seqof":
        return "OF%s %s" % (rng(), short(ty["of"]))
    if t in ("choice", "open"):
        return "%s{%s%s}" % (t.upper(), "|".join("%s:%s" % (U.num(a["k"]) if t == "open" else a["k"], short(a["ty"])) for a in ty["a"]), "|..." if ty.get("ext") else "")
    return t + (rng() if "lb" in ty else "")


# ------------------------------------------------------------------ families

SMALL = [BOOL, NULL, INT(0, 6), INT(0, 255), INT(0, 70000), INT(-5, 5), INT(), INT(0, None), ENUM(3), STR("oct"), STR("bit", 3, 3), STR("vis", 1, 4), STR("utf")]


def prims(r, n):
    return [U.rand_prim(r) for _ in range(n)]


def sequences(r, deep):
    L = [SEQ(), SEQ(ext=True), SEQ(BOOL), SEQ(BOOL, INT(0, 255), STR("oct"))]
    for n in range(1, 7):
        L.append(SEQ(*[C(SMALL[(i * 5 + n) % len(SMALL)], True) for i in range(n)], ext=n % 2 == 0))
    for pat in range(16):
        L.append(SEQ(*[C(SMALL[(i * 3 + pat) % len(SMALL)], bool(pat >> i & 1)) for i in range(4)], ext=pat % 3 == 0))
    L.append(SEQ(*[C(INT(0, 255), True) for _ in range(9)], ext=True))
    L.append(SEQ(*[C(INT(0, 3), i % 3 != 0) for i in range(20)], ext=True))
    L.append(SEQ(*[C(BOOL, True) for i in range(66)]))
    L.append(SEQ(C(SEQ(C(BOOL, True), INT(0, 255), ext=True), True), C(SEQ(ext=True)), C(STR("oct", 1, 3), True), ext=True))
    L.append(OF(SEQ(C(INT(0, 7), True), BOOL, ext=True), 0, 4))
    L.append(SEQ(C(SEQ(C(SEQ(C(BOOL, True), ext=True), True), ext=True), True), INT(0, 1000), ext=True))
    for _ in range(40 if deep else 12):
        L.append(SEQ(*[C(t, r.random() < .5) for t in prims(r, r.randint(1, 8))], ext=r.random() < .5))
    return L


def lists(r, deep):
    L = []
    for i, (lb, ub, ext) in enumerate([(None, None, False), (0, 0, False), (1, 1, False), (3, 3, False), (0, 1, False), (0, 3, False), (1, 4, False), (2, 2, True), (0, 4, True), (1, None, False), (None, None, True),
                        (0, 255, False), (0, 256, False), (1, 256, True), (1, 65535, False), (0, 65536, False), (5, 300, False), (None, 4, False), (2, None, True), (126, 130, False)]):
        L.append(OF(SMALL[i % len(SMALL)], lb, ub, ext))
        L.append(OF(SMALL[(i * 5 + 3) % len(SMALL)], lb, ub, ext))
    L += [OF(OF(INT(0, 255), 0, 3), 1, 3), OF(OF(BOOL), None, None, True), OF(SEQ(C(BOOL, True), STR("oct", 2, 2)), 0, 5), OF(CHOICE(BOOL, INT(0, 255), ext=True), 1, 5),
          SEQ(OF(BOOL, 0, 7), OF(INT(0, 255), 1, 2, True)), OF(SEQ(C(INT(0, 3), False, True), C(OPEN([(0, BOOL), (1, OF(NULL))]))), 0, 3)]
    for _ in range(30 if deep else 10):
        L.append(OF(U.rand_type(r, 1), *U.rand_size(r)))
    return L


def choices(r, deep):
    L = [CHOICE(BOOL), CHOICE(BOOL, ext=True), CHOICE(NULL, BOOL), CHOICE(*SMALL), CHOICE(*SMALL, ext=True), CHOICE(INT(0, 255), STR("oct"), ext=True, adds=[BOOL, INT(0, 7)]),
         CHOICE(NULL, NULL, NULL), CHOICE(INT(0, 7), INT(0, 7), INT(0, 7), INT(0, 7), INT(0, 7)),
         CHOICE(BOOL, INT(0, 255), NULL, keys=[2, 0, 1]), CHOICE(BOOL, INT(0, 255), keys=[0, 3]), CHOICE(BOOL, INT(0, 255), keys=[1, 2], ext=True, adds=[NULL]),
         CHOICE(BOOL, NULL, ub=6), CHOICE(CHOICE(BOOL, NULL), CHOICE(INT(0, 1), INT(0, 255), ext=True), ext=True),
         CHOICE(SEQ(C(BOOL, True), ext=True), OF(BOOL, 0, 3)), CHOICE(*[INT(k, k + 3) for k in range(9)]), CHOICE(*[INT(0, k) for k in range(17)], ext=True, adds=[BOOL] * 3),
         CHOICE(*[NULL if k % 2 else BOOL for k in range(65)]), CHOICE(*[INT(0, 255) for k in range(256)]), CHOICE(*[INT(0, 1) for k in range(257)], ext=True)]
    for _ in range(30 if deep else 10):
        ext = r.random() < .5
        L.append(CHOICE(*[U.rand_type(r, 1) for _ in range(r.randint(1, 6))], ext=ext, adds=prims(r, r.randint(0, 2)) if ext else ()))
    return L


def opens(r, deep):
    I8 = INT(0, 255, False, "u8")
    def keyed(alts, key=I8, mid=(), tail=(), optkey=False, optopen=False, ext=False):
        return SEQ(C(key, optkey, True), *mid, C(OPEN(alts), optopen), *tail, ext=ext)
    L = [keyed([(0, BOOL), (1, INT(0, 255)), (2, STR("oct")), (200, NULL)]),
         keyed([(5, SEQ()), (6, SEQ(C(BOOL, True)))], tail=[BOOL, INT(0, 7)]),
         keyed([(0, INT(0, 3)), (1, INT()), (255, STR("vis", 1, 3))], mid=[ENUM(3)], tail=[STR("oct", 2, 2)]),
         keyed([(0, BOOL), (1, INT(0, 255))], optopen=True, tail=[BOOL]),
         keyed([(0, BOOL), (1, INT(0, 255))], optkey=True),
         keyed([(0, BOOL), (2, INT(0, 255))], key=ENUM(3)),
         keyed([(0, STR("oct")), (70000, BOOL), (3, NULL)], key=INT(0, 2**32 - 1)),
         keyed([(0, BOOL)], mid=[C(OPEN([(0, INT(0, 255)), (1, NULL)]), True)], ext=True),
         OF(keyed([(0, BOOL), (1, STR("oct", 1, 4)), (7, OF(BOOL, 0, 3))]), 0, 4),
         OF(keyed([(0, SEQ(OF(keyed([(0, BOOL), (1, INT(0, 7)), (2, NULL)]), 0, 3))), (1, BOOL)]), 0, 3),
         SEQ(keyed([(0, BOOL), (1, INT(0, 255))]), C(OPEN([(0, NULL), (1, BOOL)]), True), BOOL),
         SEQ(C(I8, False, True), C(SEQ(C(OPEN([(3, BOOL), (4, INT(0, 70000))]))), True), INT(0, 255), ext=True),
         CHOICE(keyed([(0, BOOL)]), keyed([(1, STR("utf")), (2, STR("bit"))]), ext=True),
         keyed([(0, keyed([(1, BOOL), (2, STR("oct", 3, 3))], tail=[INT(0, 1)])), (1, NULL), (2, BOOL)], tail=[C(OPEN([(0, BOOL), (1, INT(0, 3)), (2, NULL)]), True)]),
         keyed([(0, STR("oct")), (1, STR("bit")), (2, OF(INT(0, 255)))], ext=True, tail=[C(BOOL, True)]),
         keyed([(9, BOOL)], tail=[C(I8, False, True), OPEN([(0, NULL), (9, INT(0, 7))])]),
         SEQ(OPEN([(0, BOOL), (1, NULL)])), OPEN([(0, BOOL), (1, INT(0, 255))]), SEQ(C(INT(0, 3, False), False, False), OPEN([(0, BOOL), (1, BOOL)]))]
    for _ in range(30 if deep else 10):
        ks = r.sample(range(256), 3)
        L.append(SEQ(C(INT(0, 255, False, r.choice(["u8", "u16", "i16"])), r.random() < .15, True), C(U.rand_prim(r), r.random() < .5), C(OPEN([(k, U.rand_type(r, 2)) for k in ks]), r.random() < .3), U.rand_prim(r), ext=r.random() < .3))
    return L


def numbers(r, deep):
    L = []
    for c, (lo, hi) in U.CARRIERS.items():
        top = min(hi, 2**127 - 1)
        L += [INT(None, None, False, c), INT(max(lo, -2**126 + 1), min(top, 2**126 - 1), False, c), INT(max(lo, -2**126), min(top, 2**126), False, c), INT(0, None, False, c), INT(0, 100, True, c), INT(0, 300, False, c), INT(0, 2**40, False, c), INT(0, 2**64, True, c),
              INT(-1, 100, False, c), INT(-300, 300, False, c), INT(1, 254, True, c), INT(None, 7, False, c)]
        if lo < 0:
            L += [INT(lo, None, False, c), INT(lo if lo > -2**127 else -2**126, -1, False, c)]
    L += [ENUM(n, e) for n in (1, 2, 3, 64, 65, 255, 256) for e in (False, True)] + [ENUM(300, False, "u16"), ENUM(300), ENUM(257, True), ENUM(3, False, "u64"), ENUM(3, True, "i8"), ENUM(200, False, "i8"), ENUM(5, False, "u128"), ENUM(70000, False, "u32"), ENUM(70000, False, "u16")]
    for _ in range(60 if deep else 20):
        c = r.choice(list(U.CARRIERS))
        lb = r.choice([0, 1, -1, r.randint(-2**r.randint(1, 100), 2**r.randint(1, 100))])
        L.append(INT(lb, lb + r.randint(0, 2**r.randint(1, 100)), r.random() < .3, c))
    return L


def nested(r, deep):
    L = []
    while len(L) < (150 if deep else 60):
        t = U.rand_type(r, r.choice([2, 3, 3, 4]))
        if t["t"] in ("seq", "seqof", "choice") and len(json.dumps(t)) < 6000:
            L.append(t)
    return L


def run(c, types, leads=(0, 3), nvals=40, nwires=8, flips=(0,), cuts=(0,), rec=3000, keep=lambda m: True, keys=()):
    r = random.Random("types %s %d" % (c.prop, c.seed))
    deep = c.deep
    types = types(r, deep)
    es = [entry(t, None, nvals * (4 if deep else 1), nwires * (8 if deep else 1), r) for t in types]
    # the key may be known from the context
    es += [entry(t, k, nvals, nwires, r) for t in types if t["t"] == "open" or (t["t"] == "seq" and len(t["c"]) == 1) for k in keys]
    u = Universe(c, "u", es)
    u.build()
    u.replay("sent", ["lib", "peer"], leads if not deep else range(8), cuts=(0,), flips=(0,), keep=keep)
    u.replay("damaged", ["lib", "peer"], (0,) if not deep else (0, 5), cuts=cuts if not deep else (0, 1, 2, 3), flips=flips if not deep else range(0, 25), keep=keep)
    u.replay("received", ["wire"], leads, keep=keep)
    u.record("recorded", rec * (10 if deep else 1), keep=keep)


FL = (1, 3, 8, 12, 17)


def c10(c):
    run(c, sequences, flips=FL, cuts=(0, 1))


def fragmented_lists(c):
    """Lists of 16384 and more items, that a peer sends in fragments."""
    K = 16384
    es = [entry(OF(ty, lb, ub, ext), vals=[[v] * n for n in ns for v in vs])
          for ty, vs in ((NULL, [0]), (BOOL, [True])) for lb, ub, ext, ns in ((None, None, False, (K - 1, K, K + 1, 3 * K)), (0, 65536, False, (K, 2 * K + 5)), (0, 3, True, (K,)), (0, 65535, False, (K,)))]
    u = Universe(c, "long", es)
    u.build()
    u.replay("list-fragments", ["lib", "peer"])


def refusals(c):
    """C06 for composed types."""
    r = random.Random("refusals %d" % c.seed)
    types = lists(r, c.deep) + numbers(r, c.deep)[::3] + choices(r, c.deep)[:12] + [t for t in nested(r, c.deep)][:20]
    u = Universe(c, "u", [entry(t, None, 30 * (4 if c.deep else 1), 0, r, vals=U.odd(t) + U.good(t)[:3]) for t in types])
    u.build()
    u.replay("derived", ["lib"], keep=lambda m: m["what"] in ("encode", "hang"))
    u.record("derived-recorded", 2000 * (10 if c.deep else 1), damage=0, wires=0, keep=lambda m: m["what"] == "encode")


def received(c, keep):
    """C07, C08 for composed types: octets from anywhere."""
    r = random.Random("received %d" % c.seed)
    types = (sequences(r, c.deep)[::3] + lists(r, c.deep)[::3] + choices(r, c.deep)[::4] + opens(r, c.deep)[::2] + numbers(r, c.deep)[::6] + nested(r, c.deep)[:25])
    u = Universe(c, "u", [entry(t, None, 6, 60 * (8 if c.deep else 1), r) for t in types])
    u.build()
    u.replay("derived-wire", ["wire"], (0, 3), keep=keep)
    u.replay("derived-damaged", ["lib", "peer"], cuts=(0, 1, 2), flips=(0, 2, 7, 11), keep=keep)
    u.record("derived-recorded", 2000 * (10 if c.deep else 1), damage=1, wires=.5, keep=keep)


def c11(c):
    run(c, lists, flips=FL, cuts=(0, 1))
    fragmented_lists(c)


def c12(c):
    run(c, choices, flips=FL, cuts=(0, 1))


def c13(c):
    run(c, opens, flips=FL, cuts=(0, 1), keys=(0, 1, 5, -1))


def c14(c):
    run(c, numbers, flips=FL, cuts=(0,), nwires=20)


def c15(c):
    run(c, nested, leads=(0, 1), nvals=16, nwires=8, flips=(1, 5, 9, 14), cuts=(0, 1), rec=5000)


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}
