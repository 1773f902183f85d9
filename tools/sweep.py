#!/usr/bin/env python3
"""sweep.py [NAME...]: apply each planted bug to /repo, run its property's check, undo; record in tools/seeds.json (development only)."""
import sys, os, json, subprocess
V = "/verif"; names = sys.argv[1:] or sorted(os.listdir(f"{V}/seeded")); out = json.load(open(f"{V}/tools/seeds.json"))
for n in names:
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    if subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{n}/patch.diff"]).returncode: print(n, "DOES NOT APPLY"); continue
    try: r = subprocess.run(["python3", "check.py", "run", m["property"]], cwd=V, capture_output=True, text=True)
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = sorted(set(l.split(":")[0] for l in r.stdout.splitlines() if "] inputs:" in l))
    out[n] = {"property": m["property"], "caught": (m["property"] + "/" + ",".join(v)) if r.returncode == 1 else f"no (exit {r.returncode})", "breaks": m["what_it_breaks"]}
    print(n, out[n]["caught"], flush=True)
for n in list(out):
    if not os.path.isdir(f"{V}/seeded/{n}"): del out[n]
json.dump(out, open(f"{V}/tools/seeds.json", "w"), indent=1)
