"""mkdesign.py: fill the tables of tools/DESIGN.in.md from seeded/ and known_findings.jsonl."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f"{V}/tools/DESIGN.in.md").read()
fix = ["| commit | property | what failed |", "|---|---|---|"]
for l in open(f"{V}/known_findings.jsonl"):
    d = json.loads(l)
    if d["status"] == "fixed":
        fix.append(f"| {d['commit']} | {d['property']} | {d['what']} |")
seeds = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
rows = []
for f in glob.glob(f"{V}/seeded/*/meta.json"):
    d = json.load(open(f))
    rows.append((d["property"], os.path.basename(os.path.dirname(f)), d))
for p, n, d in sorted(rows, key=lambda r: r[:2]):
    seeds.append(f"| {n} | {d.get('caught_by', p)} | {d['what_it_breaks']} | {d['needs']} |".replace("\n", " "))
more = open(f"{V}/tools/DESIGN.more.md").read().strip() if os.path.exists(f"{V}/tools/DESIGN.more.md") else ""
t = t.replace("@@MORE@@\n", more + "\n" if more else "").replace("@@FIXES@@", "\n".join(fix)).replace("@@SEEDS@@", "\n".join(seeds))
open(f"{V}/DESIGN.md", "w").write(t)
