"""What all checks share: running cargo, TLC and the harnesses, evidence, findings, verdicts."""
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def env(extra=None):
    e = dict(os.environ)
    e.update({
        "HOME": os.environ.get("HOME", "/root"),
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "CARGO_TARGET_DIR": TARGET,
        "RUSTC_WRAPPER": "",
        "RUST_BACKTRACE": "0",
    })
    for k in ("RUSTFLAGS", "TRYBUILD", "RUST_LOG", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    if extra:
        e.update(extra)
    return e


class Check:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.start = time.time()
        self.work = os.path.join(TARGET, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.parts = []
        self.known = load_known(prop)
        self.known_hit = []

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.start, msg), flush=True)

    def violation(self, key, detail):
        """key: a stable description of the failing input; detail: everything needed to replay."""
        for k in self.known:
            if k["match"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append({"key": key, "detail": detail})

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    # ------------------------------------------------------------ cargo

    def cargo(self, crate, extra_env=None, timeout=600):
        t = time.time()
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=crate, env=env(extra_env), timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.log("built %s in %.1fs" % (os.path.basename(crate), time.time() - t))
        return p.returncode, p.stdout

    def build(self, crate):
        rc, out = self.cargo(crate)
        if rc != 0:
            raise ToolError("building %s failed:\n%s" % (crate, out[-3000:]))

    # ------------------------------------------------------------ TLC

    def tlc(self, root, cfg, name, env_extra=None, timeout=800, workers=8, simulate=None, heap="6g", must=True):
        """Runs TLC on module `root` (in SPEC or given as (name, text)); returns printed strings."""
        d = os.path.join(self.work, "tlc-" + name)
        os.makedirs(d)
        if isinstance(root, tuple):
            root, text = root
            open(os.path.join(d, root + ".tla"), "w").write(text)
        else:
            shutil.copy(os.path.join(SPEC, root + ".tla"), d)
        open(os.path.join(d, root + ".cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-DTLA-Library=" + SPEC, "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-seed", str(self.seed), "-fp", "7"]
        if simulate:
            cmd += ["-simulate", simulate[0], "-depth", str(simulate[1])]
        cmd += ["-config", root + ".cfg", root + ".tla"]
        t = time.time()
        out_path = os.path.join(d, "out")
        with open(out_path, "w") as out:
            try:
                p = subprocess.run(cmd, cwd=d, env=env(env_extra), stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC %s did not finish in %ds" % (name, timeout))
        printed, rest = [], []
        with open(out_path) as f:
            for line in f:
                if line.startswith('"'):
                    printed.append(json.loads(line))
                else:
                    rest.append(line)
        rest = "".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", rest) or \
            re.search(r"(?s).*?states checked.*?(\d+).*?(\d+)", "")
        gen = dist = 0
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
        elif simulate:
            m = re.search(r"The number of states generated: (\d+)", rest)
            gen = dist = int(m.group(1)) if m else 0
        if must and (p.returncode != 0 or "Error:" in rest):
            i = rest.find("Error:")
            raise ToolError("TLC %s failed (rc %d):\n%s" % (name, p.returncode, rest[max(0, i - 200):i + 3000]))
        self.states += dist
        self.transitions += gen
        self.parts.append({"tlc": name, "distinct_states": dist, "states_generated": gen, "printed": len(printed),
                           "wall_s": round(time.time() - t, 1)})
        self.log("TLC %s: %d distinct states, %d lines, %.1fs" % (name, dist, len(printed), time.time() - t))
        return printed

    # ------------------------------------------------------------ processes

    def run(self, cmd, timeout=600, **kw):
        """A harness, with bounded memory: what it runs is the code under test."""
        limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        try:
            return subprocess.run(cmd, env=env(), timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  preexec_fn=limit, **kw)
        except subprocess.TimeoutExpired:
            raise ToolError("%s did not finish in %ds" % (" ".join(cmd[:3]), timeout))

    def aborted(self, p, name):
        """The code under test brought the process down (stack, memory, abort): not a panic that can be caught."""
        if p.returncode < 0 or p.returncode == 134:
            self.violation("abort", {"family": name, "signal": -p.returncode, "stderr": p.stderr[-800:], "stdout": p.stdout[-800:]})
            return True
        return False

    # ------------------------------------------------------------ the end

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples, "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        if self.traces == 0 and not self.violations:
            raise ToolError("nothing was validated against the implementation")
        if self.violations:
            d = os.path.join(TARGET, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump(self.violations[:int(os.environ.get("VERIF_REPLAYS", "50"))], f, indent=1)
            for v in self.violations[:5]:
                print("  %s: %s" % (v["key"], json.dumps(v["detail"])[:600]))
            print("%d violations" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s: %d states, %d behaviours validated against the implementation, %.1fs"
              % (self.prop, self.states, self.traces, time.time() - self.start))
        return 0


def load_known(prop):
    """Findings recorded in /verif/known_findings.json for this property (fixed ones suppress nothing)."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop]
