#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]: decides one property. See DESIGN.md."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import Check, ToolError, TLA_CP
import codec, compiler, derived, lexing, runs, texts, wire

CHECKS = {}
CHECKS.update(codec.CHECKS)
CHECKS.update(derived.CHECKS)
CHECKS.update(lexing.CHECKS)
CHECKS.update(compiler.CHECKS)
CHECKS.update(texts.CHECKS)
CHECKS.update(wire.CHECKS)
CHECKS.update(runs.CHECKS)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selfcheck", action="store_true", help="are the tools there? (setup)")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    if a.selfcheck:
        for f in (TLA_CP.split(":") + ["/repo/Cargo.toml"]):
            if not os.path.exists(f):
                sys.exit("missing: " + f)
        sys.exit(0)
    c = Check(a.property, a.tier, a.seed)
    try:
        CHECKS[a.property](c)
        rc = c.finish()
    except ToolError as e:
        print("ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
