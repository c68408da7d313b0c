#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry as R
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(R, "NOT_APPLICABLE", {})
with open(os.path.join(V, "properties.jsonl"), "w") as fp:
    for p in list(R.PROPS.values()) + [n["prop"] for n in NA.values()]:
        fp.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks = []
for p in R.PROPS.values():
    b = "; ".join("%s: %s [%s = %s]" % (h.name, h.what, h.bounds, ",".join("p%d=%d" % kv for q in h.quick for kv in q.items())) for h in p["harnesses"])
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique="bounded symbolic execution of the tree's LLVM IR, assertions decided by an SMT solver (z3)", level="model_checking",
                       level_note="Every value within the bounds is covered by solver queries, nothing is claimed beyond them. Quick bounds: " + b +
                       ". Trusted: clang front end, the engine, the libc/system models in models/ (path witnesses are replayed on an ASan build)." + (" " + p["note"] if p["note"] else "")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=k, reason=n["reason"]) for k, n in NA.items()],
         hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified, only the names of the four main functions are set on the command line", source_commits=[]),
         notes="Properties and bounds are defined in tools/registry.py; fixes made to the code are listed in known_findings.json.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")

# ---------------------------------------------------------------- DESIGN.md
sys.path.insert(0, os.path.join(V, "docs"))
sys.dont_write_bytecode = True
from notes import NOTES
D = os.path.join(V, "docs")
rd = lambda n: open(os.path.join(D, n)).read()
res = json.load(open(os.path.join(D, "seed_results.json"))) if os.path.exists(os.path.join(D, "seed_results.json")) else {}
cost = json.load(open(os.path.join(D, "cost.json"))) if os.path.exists(os.path.join(D, "cost.json")) else {}
o = [rd("head.md"), "## 5 The properties one by one\n\nFor each: what is stated, over what it is quantified, the oracle, the harnesses with their bounds (quick | thorough; `pN` as named), what lies outside, cost of the quick check on this machine, and seeded bugs it catches. Statements are those of properties.jsonl.\n"]
seedof = {}
for k, v in sorted(res.items()):
    seedof.setdefault(v["property"], []).append((k, v))
fmt = lambda q: "; ".join(",".join("p%d=%d" % kv for kv in x.items()) or "-" for x in q)
for p in R.PROPS.values():
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append("%s\n" % p["statement"])
    o.append("* Over: %s (%s). Beyond tests: %s." % (p["quant"], ", ".join(p["over"]), p["why"]))
    o.append("* Code: %s." % ", ".join("`%s` (%s)" % m for m in p["mech"]))
    o.append("* Oracle: %s" % NOTES[p["id"]])
    for h in p["harnesses"]:
        o.append("* `%s` (harness/%s.c): %s. Bounds: %s [%s | %s]. Outside: %s.%s" % (h.name, h.src, h.what, h.bounds or "-", fmt(h.quick), fmt(h.thorough), h.outside or "nothing besides larger bounds", " Stubs: %s." % h.stubs if h.stubs else ""))
    if p["assumptions"]:
        o.append("* Assumes: %s." % "; ".join(p["assumptions"]))
    if p["id"] in cost:
        o.append("* Cost: %s." % cost[p["id"]])
    ss = seedof.get(p["id"], [])
    if ss:
        o.append("* Seeded bugs: %s." % ", ".join("%s%s" % (k, "" if v["caught"] else " (missed)") for k, v in ss))
    o.append("")
for k, n in NA.items():
    o.append("### %s %s (not applicable)\n\n%s\n\n%s\n" % (k, n["prop"]["title"], n["prop"]["statement"], n["reason"]))
kf = json.load(open(os.path.join(V, "known_findings.json")))
o.append(rd("tail.md").replace("@FIXED@", "\n".join("* " + f.replace("fixed: property=", "", 1) for f in kf["fixed"])))
o.append("## 9 Seeded bugs\n\n%d changes in seeded/, each compiling, passing the existing tests and shown by its demo.sh. Result of the property's quick check:\n\n| seed | property | result | needs |\n|---|---|---|---|" % len(res))
for k, v in sorted(res.items(), key=lambda x: (x[1]["property"], x[0])):
    o.append("| %s | %s | %s | %s |" % (k, v["property"], "caught" if v["caught"] else "missed", v["needs"].replace("|", "/").replace("\n", " ")))
o.append(rd("limits.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
