#!/usr/bin/env python3
# Puts DESIGN.md together.
import json, os, subprocess, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
rules = collections.defaultdict(list)
for l in subprocess.check_output([V + "/run.sh", "list"], text=True).splitlines():
    i, name, b, rule = l.split("\t", 3)
    rules[i].append((name, b, rule))
seeds = collections.defaultdict(list)
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    seeds[m["property"]].append((d, m))
trial = {}
if os.path.exists(V + "/tools/trials.txt"):
    for l in open(V + "/tools/trials.txt"):
        p = l.split(None, 5)
        if len(p) >= 4 and p[2].startswith("rc="):
            h = ""
            if len(p) > 5 and "harness " in p[5]:
                h = p[5].split("harness ", 1)[1].split(",")[0]
            trial[(p[0], p[1])] = (p[3], h)
out = open(V + "/tools/design_head.md").read()
out += "## Properties\n\n"
for p in props:
    i = p["id"]
    out += f"### {i} {p['title']}\n\n{p['statement']}\n\n"
    out += f"*Quantifier:* {p['quantifier']['text']}. *Decided by:* {man[i]['technique']}. {man[i]['level_note']}\n\n"
    out += f"*Why tests cannot settle it:* {p['why_tests_cant']}\n\n*Enumerated (harness: rule; deviation bound quick/thorough where not 0):*\n\n"
    for n, b, r in rules[i]:
        out += f"- `{n}`{'' if b == '0/0' else ' ('+b+')'}: {r}\n"
    out += "\n"
out += "## Planted bugs and the checks that catch them\n\n"
out += "Each was confirmed (builds, stable tests pass, demonstration passes without and fails with it) by `tools/tryseed.sh`. The last column is the harness that reported it in the recorded trial; `-` means that the table holds no trial of it.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for i in sorted(seeds):
    for d, m in seeds[i]:
        c = [f"{ck} {h}".strip() for (s, ck), (v, h) in sorted(trial.items()) if s == d and v == "CAUGHT"]
        miss = [ck for (s, ck), (v, h) in sorted(trial.items()) if s == d and v != "CAUGHT"]
        out += f"| {d} | {i} | {m['needs'].replace('|', '/')} | {', '.join(c) or '-'}{' (missed by '+', '.join(miss)+')' if miss and not c else ''} |\n"
out += "\n## Properties not claimed\n\nNone.\n"
open(V + "/DESIGN.md", "w").write(out)
