#!/usr/bin/env python3
"""Measures each part of each check and writes harness/props/counts.go: case counts
for about QUICK seconds a quick check and THOROUGH seconds a thorough one (8 cores).

usage: tune.py (builds nothing; expects the binaries at $JC and, for -race, $JCR)
"""
import json, os, subprocess, sys, tempfile

QUICK, THOROUGH, CAP = 14.0, 420.0, 20_000_000
jc, jcr = os.environ.get("JC", "/tmp/jc"), os.environ.get("JCR", "/tmp/jcr")
ids = subprocess.check_output([jc, "-list"], text=True).split()
out = {}


def measure(p, tier, scale):
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(d + "/evidence")
        subprocess.run([jcr if p == "C12" else jc, "-prop", p, "-tier", tier, "-root", d, "-scale", str(scale)],
                       stdout=subprocess.DEVNULL, check=True)
        return json.load(open(f"{d}/evidence/{p}.json"))["coverage"]["parts"]


def rnd(n):
    if n < 100:
        return max(int(n), 1)
    k = 10 ** (len(str(int(n))) - 2)
    return int(n) // k * k


for p in ids:
    for tier, budget in (("quick", QUICK), ("thorough", THOROUGH)):
        scale = 0.3 if tier == "quick" else 0.01
        parts = measure(p, tier, scale)
        exh = sum(x["wall_s"] for x in parts if x.get("exhaustive"))
        sampled = [x for x in parts if not x.get("exhaustive") and x["name"] != "giant"]
        share = max(budget - exh, budget / 3) / max(len(sampled), 1)
        for x in sampled:
            rate = x["evaluations"] / max(x["wall_s"], 0.002)
            out.setdefault(f"{p}/{x['name']}", {})[tier] = min(rnd(rate * share), CAP if tier == "thorough" else 2_000_000)
    print(p, {k: v for k, v in out.items() if k.startswith(p)}, flush=True)

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/harness/props/counts.go", "w") as f:
    f.write("package props\n\n// counts holds the quick and thorough case counts of the sampled parts, as\n"
            "// measured by tools/tune.py; a part that is not listed keeps its own.\n"
            "var counts = map[string][2]int{\n")
    for k, v in out.items():
        if len(v) < 2:  # exhaustive in one tier
            continue
        f.write(f'\t"{k}": {{{v["quick"]}, {v["thorough"]}}},\n')
    f.write("}\n")
subprocess.run(["gofmt", "-w", root + "/harness/props/counts.go"], check=True)
