#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the rule modules that exist (run by hand)."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 "N01": "the exact bytes left after cutting key bindings out of the input depend on run-time byte counts, buffer offsets and how reads are split; no static rule in reach bounds that arithmetic (the structural parts - every block is handed on, the key tables - are C12 and C30)",
 "N02": "screen equality is a statement about what a terminal emulator computes from run-time output; nothing in the shape of this code decides it (the order and completeness of restore data is C14)",
 "N03": "latency under load is a run-time quantity; the structural part, that nothing waits without a constant bound while the table is locked, is C07",
 "N04": "values computed from run-time strings by an interpreter loop; a static rule would restate the code (overflow and panics on those paths are C22)",
 "N05": "whether a late acknowledgement meets the wrong request depends on the timing of rendezvous channels against time-outs, i.e. on run-time schedules that no typestate over one thread's code decides",
 "N06": "agreement with pam_env on every file content is input/output equality of two parsers; nothing in the code's shape decides it",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    if not os.path.exists(os.path.join(V, "sa/rules/%s.py" % i.lower())):
        na.append(dict(property=i, reason="rule not built yet (static analysis applies; see DESIGN.md)"))
        continue
    m = importlib.import_module("sa.rules." + i.lower())
    note = m.EXPLAIN + " Assumes: " + "; ".join(getattr(m, "ASSUME", [])) + "." if getattr(m, "ASSUME", None) else m.EXPLAIN
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s" % i,
                       technique=getattr(m, "TECH", "path-sensitive typestate/dataflow over MIR"), level="other",
                       level_note="Static decision over every path of the compiled program (no execution, no solver); judges the listed rules, not the whole behaviour. " + note))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks are used: the facts driver reads the unmodified build."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
