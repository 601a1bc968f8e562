#!/usr/bin/env python3
"""Writes known_findings.json: the open findings below and what the fix: commits of /repo repaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(x.split("=") for x in """
d69e9f3=C01 bb8f35b=C01 c77e294=C08 4d4d815=C01 8f7fe82=C01 276a776=C05 aacc10d=C07 d2b699c=C04 fce9cc1=C02 ec0b92c=C04 597fabf=C02
6573e3d=C04 19ae7bb=C11 d7b0519=C06 d989f6c=C11 8aefc20=C11 55706d9=C13 e00e21f=C13 0349f91=C10 a2fde5a=C14 8b580d3=C14 6c63bb1=C06
7703464=C13 0c5b2ac=C12 72a4cfb=C07 66b23e7=A03 9630aa5=A03 0a6504c=A03 028a19e=A02 4462b36=A01 3393dd4=A01 eee70c1=A02 d67fcff=A02
fe9cecc=A04 8f223fd=A03 0f6a44d=A02 3685af5=A13 a9c14d2=A08 cdc53d2=A08 1f91651=A07 47e69d0=A06 470ffef=A06 bded31d=A05 aa4c3b4=A09
9ac450b=A09 6fbb86d=A10 492205e=A03 4dd3b3d=A11 5b90c65=A03 725452f=A01 1776336=A10 e36380d=A12 ef92807=A12""".split())
OPEN = []  # {"property", "match", "text"}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "3e61fb6..HEAD"], text=True).split("\n")
fixed = []
for l in filter(None, log):
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        fixed.append("fixed: property=%s %s %s" % (PROP[h], h, s[5:]))
json.dump({"findings": OPEN, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
