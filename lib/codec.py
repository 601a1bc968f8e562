"""C01 - C09: the codec library against AperCodec.tla / AperTrace.tla."""
import json, os
from common import *
import derived

CRATE = os.path.join(VERIF, "harness", "codec")
BIN = os.path.join(TARGET, "debug", "codec-harness")

INVARIANTS = "INVARIANTS RefusesExactly RoundTrip Confined Admissible Needs Emitted\nPROPERTY AppendOnly\nCHECK_DEADLOCK FALSE\n"


def cfg(check, ops="NoOps", prefixes="Zero", max_ops=1, cuts="Zero", flips="Zero", wires="NoWires", types="NoTypes", skips="Zero"):
    """The root module and its configuration for one scope of AperCodec."""
    text = ("---- MODULE MC ----\nEXTENDS AperFamilies\nMCOps == %s(0)\nMCMore == %s\nMCWires == %s(0)\nMCTypes == %s(0)\n====\n" % (ops, "MixBase(0)" if ops == "MixOps" else "<<>>", wires, types))
    return ("MC", text), ("CONSTANTS\n Deep = %s\n FirstOps <- MCOps\n OpSet <- MCMore\n Leads <- %s\n MaxOps = %d\n Cuts <- %s\n Flips <- %s\n Wires <- MCWires\n"
            " WireOps <- MCTypes\n Skips <- %s\n Emit = TRUE\nSPECIFICATION Spec\n" % (
                "TRUE" if check.deep else "FALSE", prefixes, max_ops, cuts, flips, skips)) + INVARIANTS


def size(op):
    b = lambda x: "" if not x else ("-" if x[0]["n"] else "") + str(int.from_bytes(bytes(x[0]["m"]), "big"))
    return "%s(%s..%s%s)" % (op["op"], b(op["lb"]), b(op["ub"]), ",..." if op["ext"] else "")


def replay(check, name, keep=lambda m: True, **kw):
    """spec -> implementation: every behaviour TLC finds is stepped through the library."""
    printed = check.tlc(*cfg(check, **kw), name)
    path = os.path.join(check.work, name + ".ndjson")
    n = 0
    with open(path, "w") as f:
        for p in printed:
            if p.startswith("B "):
                f.write(p[2:] + "\n")
                n += 1
    if n == 0:
        raise ToolError("no behaviours in family " + name)
    for p in printed[:: max(1, len(printed) // 2)]:
        if p.startswith("B ") and len(p) < 1500:
            check.sample({"family": name, "behaviour": json.loads(p[2:])})
    p = check.run([BIN, "replay", path], timeout=800)
    if check.aborted(p, name):
        return
    lines = [json.loads(l) for l in p.stdout.splitlines()]
    done = [l for l in lines if "replayed" in l]
    bad = [l for l in lines if "what" in l]
    hang = [l for l in bad if l["what"] == "hang"]
    if not done and not hang:
        raise ToolError("replay of %s ended with %d: %s" % (name, p.returncode, p.stderr[-500:]))
    for m in bad:
        if keep(m):
            b = m["behaviour"] or {"log": []}
            step = m.get("step", 0)
            o = b["log"][min(step, len(b["log"]) - 1)]["o"] if b["log"] else None
            check.violation("%s %s" % (m["what"], size(o) if o else ""), m)
    check.traces += done[0]["replayed"] if done else 0
    os.remove(path)


def record(check, name, profile, n, keep=lambda m: True):
    """implementation -> spec: behaviours recorded from the library are validated by TLC."""
    p = check.run([BIN, "record", str(check.seed), str(n), profile], timeout=800)
    if check.aborted(p, name):
        return
    lines = p.stdout.splitlines()
    path = os.path.join(check.work, name + ".ndjson")
    traces = [json.loads(l) for l in lines]
    hang = [t for t in traces if t.get("what") == "hang"]
    for h in hang:
        check.violation("hang", h)
    traces = [t for t in traces if "what" not in t]
    if p.returncode != 0 or (not hang and len(traces) != n):
        raise ToolError("recording %s ended with %d: %s" % (name, p.returncode, p.stderr[-500:]))
    panics = [t for t in traces if any("panic" in x for x in t["log"] + t["out"])]
    for t in panics:
        check.violation("panic", t)
    traces = [t for t in traces if not any("panic" in x for x in t["log"] + t["out"])]
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    printed = check.tlc("AperTrace", "SPECIFICATION Spec\nINVARIANT Told\nCHECK_DEADLOCK FALSE\n", name,
                        env_extra={"TRACE_FILE": path})
    ok = len([l for l in printed if l.startswith("D ")])
    bad = [json.loads(l[2:]) for l in printed if l.startswith("M ")]
    if ok + len(bad) != len(traces):
        raise ToolError("%s: %d traces, %d accepted, %d rejected" % (name, len(traces), ok, len(bad)))
    for m in bad:
        t = traces[m["t"] - 1]
        m["trace"] = t
        m["real"] = (t["log"] if m["what"] == "encode" else t["out"])[m["i"] - 1] if m["what"] != "bytes" else t["bytes"]
        if keep(m):
            o = t["log"][min(m["i"], len(t["log"])) - 1]["o"]
            check.violation("%s %s" % (m["what"], size(o)), m)
    if traces:
        check.sample({"recorded": traces[0]} if len(json.dumps(traces[0])) < 1500 else {"recorded": "..."})
    check.traces += ok
    os.remove(path)


def scaled(check, quick, thorough):
    return thorough if check.deep else quick


def build(check):
    check.build(CRATE)


def c01(c):
    build(c)
    replay(c, "integers", ops="IntOps", prefixes="SomePrefixes" if c.deep else "TwoPrefixes")
    record(c, "random", "plain:int:2", scaled(c, 4000, 60000))


def c02(c):
    build(c)
    replay(c, "lengths", ops="LenOps", prefixes="SomePrefixes")
    replay(c, "fragments", wires="FragWires", types="FragTypes")
    replay(c, "text-fragments", wires="FragTextWires", types="FragTextTypes")
    replay(c, "bit-fragments", wires="FragBitWires", types="FragBitTypes")
    record(c, "random", "plain:len,nslen,oct,bit:2", scaled(c, 3000, 40000))
    derived.fragmented_lists(c)


def c03(c):
    build(c)
    replay(c, "strings", ops="StringOps", prefixes="SomePrefixes" if c.deep else "TwoPrefixes")
    record(c, "random", "plain:bit,oct:2", scaled(c, 3000, 40000))


def c04(c):
    build(c)
    replay(c, "text", ops="CharOps", prefixes="SomePrefixes" if c.deep else "TwoPrefixes")
    replay(c, "utf8", wires="TextWires", types="TextTypes", skips="Zero")
    record(c, "random", "plain:vis,prt,utf:2", scaled(c, 3000, 40000))


def c05(c):
    build(c)
    replay(c, "small", ops="SmallOps", prefixes="SomePrefixes")
    replay(c, "received", wires="IndexWires", types="IndexTypes", skips="TwoPrefixes")
    record(c, "random", "plain:bool,enum,idx,hdr:3", scaled(c, 3000, 40000))
    record(c, "random-wire", "wire:bool,enum,idx,hdr:3", scaled(c, 3000, 40000))


def c06(c):
    build(c)
    replay(c, "refusals", ops="RefuseOps", prefixes="Zero")
    record(c, "random", "plain:int,enum,idx,len,nslen,bit,oct,vis,prt,utf:1", scaled(c, 4000, 60000),
           keep=lambda m: m["what"] != "decode")
    derived.refusals(c)


def no_value(m):
    """C07: a panic, no end, or a value where there cannot be one."""
    real = m.get("real")
    if m["what"] in ("hang", "position"):
        return True
    if isinstance(real, dict):
        if "panic" in real:
            return True
        if m["what"] == "decode" and real.get("ok") and not m["spec"].get("ok"):
            return True
    return False


def c07(c):
    build(c)
    replay(c, "short", wires="ShortWires", types="BasicTypes", skips="TwoPrefixes" if c.deep else "OnePrefix", keep=no_value)
    replay(c, "long", wires="LongWires", types="BasicTypes", keep=no_value)
    replay(c, "damaged", ops="MixOps", prefixes="TwoPrefixes", max_ops=2 if not c.deep else 2, cuts="DamageCuts", flips="DamageFlips", keep=no_value)
    record(c, "random-wire", "wire::4", scaled(c, 6000, 80000), keep=no_value)
    record(c, "random-damage", "damage::4", scaled(c, 2000, 30000), keep=no_value)
    derived.received(c, no_value)


def c08(c):
    build(c)
    replay(c, "short", wires="ShortWires", types="BasicTypes", skips="TwoPrefixes" if c.deep else "OnePrefix")
    replay(c, "long", wires="LongWires", types="BasicTypes")
    replay(c, "damaged", ops="MixOps", prefixes="TwoPrefixes", max_ops=1, cuts="DamageCuts", flips="AllFlips")
    record(c, "random-wire", "wire::3", scaled(c, 6000, 80000))
    record(c, "random-damage", "damage::3", scaled(c, 2000, 30000))
    derived.received(c, lambda m: m["what"] != "encode")


def c09(c):
    build(c)
    replay(c, "mixtures", ops="MixOps", prefixes="TwoPrefixes", max_ops=2 if not c.deep else 3)
    record(c, "random", "plain::8", scaled(c, 3000, 40000))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}
