"""A11: the same modules always become the same code."""
import concurrent.futures, hashlib, json, os, random, re, subprocess
import asn, compiler, texts, wire
from common import *

KNOWN = ["bool", "String", "Vec", "Option", "BitVec", "Msb0"] + ["%s%d" % (c, n) for c in "iu" for n in (8, 16, 32, 64, 128)]
NAME = r"[A-Za-z][A-Za-z0-9-]*"


def uses(rust):
    """The names that items use."""
    out = set()
    def ty(t):
        if isinstance(t, list):
            for x in t:
                ty(x)
        elif not t.isdigit():
            out.add(t)
    for it in rust.items.values():
        for x in ([it["alias"]] if "alias" in it else []) + ([it["holds"]] if "holds" in it else []) + [f[1] for f in it.get("fields", [])] + [v[1] for v in it.get("variants", [])]:
            ty(x)
    for n, cs in rust.consts.items():
        out.add(n)
        for c in cs:
            ty(c[2])
    return sorted(out)


def defs(text):
    return re.findall(r"^\s*(?:pub )?(?:struct|enum|type) (\w+)", text, re.M)


def split(r, m, k):
    """The definitions of a random module as k modules that import from each other."""
    ds = m.defs
    cuts = sorted(r.sample(range(1, len(ds)), min(k - 1, len(ds) - 1)))
    parts = [ds[a:b] for a, b in zip([0] + cuts, cuts + [len(ds)])]
    names = r.sample(["A", "B-two", "Common", "D3", "Zz", "M-x", "Q"], len(parts))
    mods = []
    for i, p in enumerate(parts):
        used = set(json.dumps(p).replace('"', " ").split())
        imports = [{"names": [d["n"] for d in q if d["n"] in used], "from": names[j]} for j, q in enumerate(parts[:i])]
        imports = [x for x in imports if x["names"]]
        r.shuffle(imports)
        r.shuffle(p)
        mods.append({"n": names[i], "imports": imports, "defs": p})
    return mods


def info(m, bad=False):
    return {"n": m["n"], "defs": [d["n"] for d in m["defs"]], "imports": [[i["from"], n] for i in m["imports"] for n in i["names"]],
            "types": [asn.rust_type(d["n"]) for d in m["defs"] if d["d"] == "type" and not d["params"]], "bad": bad}


class Files:
    """The files of all histories, and what the specification knows of them."""

    def __init__(self):
        self.texts, self.infos = [], []

    def add(self, text, mods, broken=False):
        self.texts.append(text)
        self.infos.append({"mods": mods, "broken": broken})
        return len(self.texts)


def pool(r, files, k, size):
    """Files with the modules of a random set of modules; the last ones have something wrong."""
    mods = split(r, wire.Modules(r, 3, size), k)
    ts = asn.texts(mods, r)
    out = []
    i = 0
    while i < len(mods):
        n = r.choice([1, 1, 2])
        out.append(files.add("".join(ts[i:i + n]), [info(m) for m in mods[i:i + n]]))
        i += n
    odd = []
    m = r.choice(mods)
    odd.append(files.add(asn.texts([{"n": m["n"], "imports": [], "defs": [{"d": "type", "n": "Other", "params": [], "ty": {"k": "null"}}]}], r)[0],
                         [info({"n": m["n"], "imports": [], "defs": [{"d": "type", "n": "Other", "params": []}]})]))
    bad = {"n": "Wrong", "imports": [], "defs": [{"d": "type", "n": "Faulty", "params": [], "ty": {"k": "ref", "n": "Missing", "args": [], "cons": []}}]}
    odd.append(files.add(asn.texts([bad], r)[0], [info(bad, True)]))
    t = r.choice(ts)
    odd.append(files.add(t[:t.rindex("END")], [], True))
    return out, odd


def bundled(files):
    """The pools of the bundled ASN.1."""
    out = []
    for d in sorted(os.listdir(os.path.join(REPO, "specs"))):
        p = os.path.join(REPO, "specs", d)
        fs = sorted(f for f in os.listdir(p) if f.endswith(".asn")) if os.path.isdir(p) else []
        ids = []
        for f in fs:
            text = open(os.path.join(p, f), encoding="utf-8", errors="replace").read()
            plain = re.sub(r"--.*?(--|(?=\n)|$)", " ", text)
            mods = []
            for m in re.finditer(r"(%s)\s*(\{[^}]*\})?\s*DEFINITIONS\s+.*?BEGIN(.*?)\bEND\b" % NAME, plain, re.S):
                body, imports = m.group(3), []
                x = re.search(r"\bIMPORTS\b(.*?);", body, re.S)
                if x:
                    for names, frm in re.findall(r"(.*?)\bFROM\s+(%s)(?:\s*\{[^}]*\})?" % NAME, x.group(1), re.S):
                        imports += [[frm, n.strip().rstrip("{} ")] for n in names.split(",") if n.strip()]
                    body = body[x.end():]
                body = re.sub(r"\bIMPORTS\b.*?;", "", body, flags=re.S)
                ds = re.findall(r"(?:^|\n)[ \t]*(%s)" % NAME, body)  # and what else lines begin with
                ts = re.findall(r"(?:^|\n)[ \t]*([A-Z][A-Za-z0-9-]*)\s*::=(?!\s*CLASS\b)", body)
                mods.append({"n": m.group(1), "defs": sorted(set(ds)), "imports": imports, "types": sorted({asn.rust_type(t) for t in ts}), "bad": False})
            ids.append(files.add(text, mods))
        if ids:
            out.append((d, ids))
    return out


def histories(check, name, pool, slots, most, most_files, path, n, r, **kw):
    cfg = ("CONSTANTS\n Pool = {%s}\n Slots = %d\n Most = %d\n MostFiles = %d\nSPECIFICATION Spec\nINVARIANTS %sTold\nCHECK_DEADLOCK FALSE\n"
           % (", ".join(map(str, pool)), slots, most, most_files, "Function Own "))
    out = sorted(set(p for p in check.tlc("Asn1Session", cfg, name, env_extra={"FILES": path}, **kw) if p.startswith("S ")))
    if len(out) > n:
        out = r.sample(out, n)
    return [json.loads(p[2:]) for p in out]


def play(check, name, files, logs, d):
    """The events of the histories as they happened, generated code in place of out."""
    def one(k, part):
        path = os.path.join(check.work, "%s-%d.log" % (name, k))
        with open(path, "w") as f:
            for n, log in part:
                used = sorted({e[2] for e in log if e[2]})
                f.write(json.dumps({"n": n, "files": [files.texts[u - 1] for u in used], "log": [[e[0], e[1], used.index(e[2]) + 1 if e[2] else 0] for e in log]}) + "\n")
        e = env({"PATH": d + ":" + os.environ["PATH"]})
        try:
            p = subprocess.run([compiler.BIN, "session", path], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
        except subprocess.TimeoutExpired:
            raise ToolError("%s did not finish" % name)
        return p.returncode, {int(m.group(1)): (m.group(4), m.group(2), m.group(5)) for m in compiler.MARK.finditer(p.stdout.decode("utf-8", "replace"))}
    logs = list(enumerate(logs, 1))
    parts = [logs[k::8] for k in range(8)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda k: one(k, parts[k]), range(8)))
    events = []
    for k in range(8):
        rc, got = outs[k]
        for n, log in parts[k]:
            for i, (e, s, f) in enumerate(log):
                v, text, msg = got.get(n * 1000 + i, ("abort %d" % rc, "", ""))
                if v not in ("ok", "err"):
                    check.violation("history %s" % json.dumps(log), {"family": name, "event": i, "wrong": "%s %s" % (v, msg), "files": [files.texts[x[2] - 1] for x in log if x[2]]})
                events.append({"e": e, "s": s, "f": f, "v": v, "out": text if e == "generate" and v == "ok" else None, "h": n, "log": log})
    return events


def processes(check, files, runs):
    """Each of the runs (lists of files) by the binary."""
    d = os.path.join(check.work, "processes")
    os.makedirs(d)
    for n, t in enumerate(files.texts, 1):
        with open(os.path.join(d, "f%d.asn" % n), "w") as f:
            f.write(t)
    def one(run):
        p = subprocess.run([wire.BINARY] + [os.path.join(d, "f%d.asn" % n) for n in run], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env({}))
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")[-300:]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, runs))
    events = []
    for run, (rc, text, msg) in zip(runs, outs):
        if rc not in (0, 1):
            check.violation("files %s" % run, {"wrong": "ended with %d" % rc, "stderr": msg})
        events.append({"e": "process", "files": run, "v": {0: "ok", 1: "err"}.get(rc, "abort"), "out": text if rc == 0 else None})
    return events


def formatted(check, codes):
    """The text that rustfmt makes of each code."""
    def one(c):
        p = subprocess.run(["rustfmt"], input=c.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env({}))
        return p.stdout.decode() if p.returncode == 0 else c
    codes = sorted(codes)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return dict(zip(codes, ex.map(one, codes)))


def validate(check, name, files, path, events):
    fmt = formatted(check, {e["out"] for e in events if e["e"] == "generate" and e["out"] is not None})
    number = {}
    for e in events:
        if e.get("out") is not None:
            t = (fmt[e["out"]] if e["e"] == "generate" else e["out"]).strip()
            e["text"] = t
            e["out"] = number.setdefault(t, len(number) + 1)
        else:
            e["out"] = 0
    for t, n in sorted(number.items(), key=lambda x: x[1]):
        try:
            rust = asn.Rust(t)
            ev = {"e": "code", "defs": defs(t), "uses": uses(rust), "out": n, "text": t}
        except asn.NotUnderstood as x:
            check.violation("code", {"family": name, "wrong": "not understood: %s" % x, "code": t[:3000]})
            continue
        events.append(ev)
    trace = os.path.join(check.work, name + ".trace")
    keep = ("e", "s", "f", "v", "out", "files", "defs", "uses")
    with open(trace, "w") as f:
        for e in events:
            f.write(json.dumps({k: e[k] for k in keep if k in e}) + "\n")
    text = "---- MODULE MC ----\nEXTENDS Asn1SessionTrace\nMCKnown == %s\n====\n" % texts.tla_seq(KNOWN)
    printed = check.tlc(("MC", text), "CONSTANTS\n Pool = {}\n Slots = 3\n Most = 0\n MostFiles = 0\n Known <- MCKnown\nSPECIFICATION TSpec\nINVARIANT TTold\nCHECK_DEADLOCK FALSE\n",
                        name, env_extra={"FILES": path, "TRACE_FILE": trace}, workers=1)
    if "E %d" % len(events) not in printed:
        raise ToolError("%s: the trace of %d events was not read to its end" % (name, len(events)))
    for p in sorted({int(p[2:]) for p in printed if p.startswith("M ")}):
        e = events[p - 1]
        log = e.get("log") or e.get("files")
        check.violation("event %s of %s" % (e["e"], json.dumps(log) if log else e.get("defs")),
                        {"family": name, "event": {k: e[k] for k in keep if k in e}, "files": [files.texts[n - 1][:2000] for n in sorted({x[2] for x in e["log"] if x[2]} if "log" in e else e.get("files", []))],
                         "code": e.get("text", "")[:6000]})
    check.traces += len(events)


def a11(check):
    check.build(compiler.CRATE)
    check.assumptions += ["the text of the code is compared after rustfmt", "chance is met by repetition: hash seeds differ in every process and in every compiler"]
    r = random.Random("a11 %d" % check.seed)
    deep = check.deep
    files = Files()
    pools = [pool(r, files, k, s) for k, s in ((3, 7), (2, 8), (4, 12)) + (((5, 20), (3, 8), (4, 9), (6, 16)) if deep else ())]
    big = [pool(r, files, r.choice([1, 3, 5]), r.choice([8, 15, 30])) for _ in range(60 if deep else 12)]
    known = bundled(files)
    path = os.path.join(check.work, "files.json")
    with open(path, "w") as f:
        json.dump(files.infos, f)
    logs = []
    for k, (ok, odd) in enumerate(pools):
        logs += histories(check, "one-%d" % k, ok + odd, 1, 1, 4 if deep else 3, path, 100000, r)
        logs += histories(check, "two-%d" % k, ok[:2] + odd[k % 3:k % 3 + 1], 2, 2, 2, path, 3000 if deep else 250, r)
        logs += histories(check, "more-%d" % k, ok + odd, 3, 5, 4, path, 2000 if deep else 120, r, simulate=("num=%d" % (500 if deep else 40), 40))
    d = compiler.shim(check)
    events = play(check, "histories", files, logs, d)
    count = {}
    for e in events:
        count[e["e"] + " " + e["v"]] = count.get(e["e"] + " " + e["v"], 0) + 1
    check.log("%d histories, events %s" % (len(logs), count))
    runs = []
    for ok, odd in pools + big:
        for _ in range(6 if deep else 3):
            runs.append(r.sample(ok, len(ok)))
        runs.append(r.sample(ok, max(1, len(ok) - 1)) + ([r.choice(odd)] if r.random() < .3 else []))
    for name, ids in known:
        for _ in range(8 if deep else 3):
            runs.append(r.sample(ids, len(ids)))
        runs.append(ids[1:] + ids[:1])
    events += processes(check, files, runs)
    check.log("%d processes" % len(runs))
    validate(check, "runs", files, path, events)
    check.sample({"history": logs[len(logs) // 2]})


CHECKS = {"A11": a11}
