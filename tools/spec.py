#!/usr/bin/env python3
"""Single source of properties.jsonl, config.json and MANIFEST.json. Run after editing: python3 tools/spec.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = "dynamic symbolic execution of the LLVM IR of the real library; z3 decides every branch alternative and every negated assertion within the bounds"
P = []
def prop(id, title, statement, over, text, why, files, mech, harnesses, bounds, outside, options=None, must=None, note=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, harnesses=harnesses, bounds=bounds, outside=outside, options=options or {}, must=must or {}, note=note))
NA = []
def na(id, title, statement, over, text, why, files, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, reason=reason))

exec(open(os.path.join(V, "tools", "props.py")).read())

def line(p): return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p.get("mech", [])]}}
with open(f"{V}/properties.jsonl", "w") as f:
    for p in sorted(P + NA, key=lambda p: p["id"]): f.write(json.dumps(line(p)) + "\n")
json.dump({p["id"]: {"harnesses": p["harnesses"], "options": p["options"], "bounds": p["bounds"], "outside": p["outside"], "must_reach": p["must"]} for p in P}, open(f"{V}/config.json", "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "python3 check.py setup",
  "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py run {p['id']}", "thorough_cmd": f"python3 check.py run {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": SYM, "level": "model_checking",
              "level_note": p["note"] or "Every path of the harness within the stated bounds is decided by the solver (evidence: exhaustive); a counterexample is replayed on a separate g++ build before it is reported. Trusts the instrumentation, z3 and the stated bounds; says nothing outside them."} for p in P],
  "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(P), "claimed,", len(NA), "not applicable")
# DESIGN.md
d = open(f"{V}/tools/design_head.md").read()
for p in sorted(P + NA, key=lambda p: p["id"]):
    d += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    if "reason" in p: d += f"*Not applicable:* {p['reason']}\n\n"; continue
    d += f"* Decided for: {p['text']}.\n* Why tests cannot: {p['why']}\n* Harnesses (harness/{p['id']}.cpp): {', '.join(p['harnesses'])}. Bounds: " + "; ".join(f"{k}: {v}" for k, v in p["bounds"].items()) + f". Outside: {p['outside']}.\n"
    if p.get("oracle"): d += f"* Oracle: {p['oracle']}\n"
    d += "\n"
k = json.load(open(f"{V}/known_findings.json"))
d += open(f"{V}/tools/design_tail.md").read()
d += "\n## 4. Defects found by the checks and repaired in /repo\n\n" + "".join(f"* {f}\n" for f in k["fixed"])
d += "\n## 5. Open findings (reported as KNOWN-FINDING)\n\n" + "".join(f"* {f['property']}/{f['harness']} `{f['id']}`: {f['what']}\n" for f in k["findings"])
s = json.load(open(f"{V}/tools/seeds.json"))
d += "\n## 6. Planted bugs\n\nEach lies in seeded/ with a patch, a demonstration and its metadata; all pass the 673 tests. `caught` names the check that reported it.\n\n| bug | property | caught | what it breaks |\n|---|---|---|---|\n"
for n in sorted(s): d += f"| {n} | {s[n]['property']} | {s[n]['caught']} | {s[n]['breaks']} |\n"
open(f"{V}/DESIGN.md", "w").write(d)
