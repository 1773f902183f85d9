#!/usr/bin/env python3
"""Solver-based checking of the real MeshKernel code: build, explore, replay, report.

check.py setup                 build the engine and pre-compile the library (only a cache; checks rebuild what changed)
check.py run Cxx [--tier T]    decide property Cxx
check.py replay FILE           re-run a recorded counterexample against an uninstrumented g++ build
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shlex, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
ENG = os.path.join(VERIF, "engine")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CLANG, CLANGC, GXX, GCC = "/usr/bin/clang++", "/usr/bin/clang", "/usr/bin/g++", "/usr/bin/gcc"
NCPU = os.cpu_count() or 4
INC = [f"-I{ENG}/compat", f"-I{REPO}/libs/MeshKernel/include", f"-I{REPO}/libs/MeshKernelApi/include", f"-I{REPO}/extern/triangle/include", f"-I{REPO}/extern/triangle/src", "-isystem/usr/include/eigen3"]
DEF = [f"-DCMAKE_SRC_DIR={REPO}", "-DHAVE_SRC_LOC_IN_ERR_MSGS=0", "-DUSE_LIBFMT=0", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE"]
TRIDEF = ["-DANSI_DECLARATORS", "-DNO_TIMER", "-DTRILIBRARY"]
PRE = ["-include", f"{ENG}/compat/ms_prelude.h"]
COMMON = ["-O1", "-g0", "-w", "-fPIC", "-ffp-contract=off", "-fno-math-errno"]
SYM = COMMON + ["-fno-vectorize", "-fno-slp-vectorize", f"-fpass-plugin={OUT}/MsPass.so"]

class BuildError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fhash(p, memo={}):
    try:
        st = os.stat(p)
    except OSError:
        return "-"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in memo:
        memo[k] = hashlib.sha256(open(p, "rb").read()).hexdigest()[:24]
    return memo[k]

def must(cmd):
    r = sh(cmd)
    if r.returncode: raise BuildError(f"{' '.join(map(shlex.quote, cmd))}\n{r.stdout[-4000:]}")
    return r

def build_engine():
    os.makedirs(OUT, exist_ok=True)
    jobs = [
        ("MsPass.so", ["MsPass.cpp", "ms_ops.h"], [CLANG, "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", f"{ENG}/MsPass.cpp"]),
        ("ms_rt.o", ["ms_rt.cpp", "ms.h", "ms_ops.h", "ms_trace.h"], [CLANG, "-std=c++20", "-O2", "-w", "-fPIC", "-c", f"{ENG}/ms_rt.cpp"]),
        ("ms_native.o", ["ms_native.cpp", "ms.h"], [GXX, "-std=c++20", "-O1", "-w", "-fPIC", "-c", f"{ENG}/ms_native.cpp"]),
        ("explore", ["explore.cpp", "ms_ops.h", "ms_trace.h"], [CLANG, "-std=c++20", "-O2", "-w", f"-I{Z3}/include", f"{ENG}/explore.cpp", f"-L{Z3}/lib", "-lz3", f"-Wl,-rpath,{Z3}/lib", "-lpthread"]),
    ]
    def one(j):
        name, deps, cmd = j
        key = hashlib.sha256((" ".join(cmd) + "".join(fhash(f"{ENG}/{d}") for d in deps)).encode()).hexdigest()
        t = f"{OUT}/{name}"
        if os.path.exists(t) and os.path.exists(t + ".key") and open(t + ".key").read() == key: return
        must(cmd + ["-o", t + ".tmp"]); os.replace(t + ".tmp", t); open(t + ".key", "w").write(key)
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(one, jobs))

def compile_one(src, mode):
    """Compile src with the given mode ('sym' or 'native'); reuse the object when source, headers, flags and pass are unchanged."""
    c = src.endswith(".c")
    base = [(CLANGC if c else CLANG)] + SYM if mode == "sym" else [(GCC if c else GXX)] + COMMON
    flags = base + ([] if c else ["-std=c++20"] + PRE) + DEF + (TRIDEF if "/triangle/" in src else []) + INC + [f"-I{ENG}"]
    key0 = " ".join(flags) + (fhash(f"{OUT}/MsPass.so.key") if mode == "sym" else "")
    d = f"{OUT}/{mode}"; os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(src, "/"))
    obj, meta = f"{d}/{name}.o", f"{d}/{name}.json"
    try:
        m = json.load(open(meta))
        if m["key"] == key0 and os.path.exists(obj) and all(fhash(p) == h for p, h in m["deps"].items()): return obj, False
    except (OSError, ValueError, KeyError): pass
    dep = f"{d}/{name}.d"
    r = sh(flags + ["-MMD", "-MF", dep, "-c", src, "-o", obj + ".tmp"])
    if r.returncode: raise BuildError(f"compilation of {src} failed:\n{r.stdout[-3000:]}")
    os.replace(obj + ".tmp", obj)
    deps = re.sub(r"\\\n", " ", open(dep).read()).split(":", 1)[1].split()
    json.dump({"key": key0, "deps": {p: fhash(p) for p in sorted(set(deps))}}, open(meta, "w"))
    os.remove(dep)
    return obj, True

def sources():
    s = sorted(glob.glob(f"{REPO}/libs/MeshKernel/src/**/*.cpp", recursive=True) + glob.glob(f"{REPO}/libs/MeshKernelApi/src/**/*.cpp", recursive=True) + glob.glob(f"{REPO}/extern/triangle/src/*.c"))
    return sorted(s, key=lambda p: -os.path.getsize(p))

def build_objects(mode, srcs):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda s: compile_one(s, mode), srcs))
    return [o for o, _ in res], sum(1 for _, n in res if n)

def link(mode, objs, hobj, target):
    rt = f"{OUT}/ms_rt.o" if mode == "sym" else f"{OUT}/ms_native.o"
    ld = ["-fuse-ld=gold"] if os.path.exists("/usr/bin/ld.gold") else []
    must([CLANG if mode == "sym" else GXX] + ld + [rt, hobj] + objs + ["-o", target + ".tmp", "-rdynamic", "-lm", "-lpthread", "-ldl"])
    os.replace(target + ".tmp", target)
    return target

def build(prop, mode):
    hs = f"{VERIF}/harness/{prop}.cpp"
    objs, n = build_objects(mode, [hs] + sources())
    # harness headers are tracked through the dependency file
    return link(mode, objs[1:], objs[0], f"{OUT}/{prop}.{mode}"), n

def explore(binp, h, j, budget, env, qto=15000):
    o = f"{binp}.{h}.json"
    if os.path.exists(o): os.remove(o)
    r = subprocess.run([f"{OUT}/explore", "--bin", binp, "--harness", h, "-j", str(j), "--budget", str(budget), "--qtimeout", str(qto), "--runtimeout", "60", "--out", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=budget + 400)
    if not os.path.exists(o): raise BuildError(f"explorer failed on {h}: {r.stdout[-2000:]}")
    return json.load(open(o))

def demangle(names):
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")

def replay(prop, h, inputs, env, repeat=1):
    b, _ = build(prop, "native")
    r = subprocess.run([b, h] + [str(x) for x in inputs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(env, MALLOC_PERTURB_="165"), timeout=200)
    return r.returncode, r.stdout

def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = json.load(open(f"{VERIF}/config.json"))[prop]
    known = [k for k in json.load(open(f"{VERIF}/known_findings.json"))["findings"] if k["property"] == prop and k.get("status") == "open"]
    env = dict(os.environ, VERIF_TIER=tier)
    build_engine()
    binp, nbuilt = build(prop, "sym")
    tb = time.time() - t0
    hs = cfg["harnesses"]
    allh = sh([binp, "--list"]).stdout.split()
    scale = 1.0 if tier == "quick" else 6.0
    def one(h):
        c = cfg.get("options", {}).get(h, {})
        return explore(binp, h, c.get("j", 4), c.get("budget", 150) * scale, env)
    with cf.ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
        res = dict(zip(hs, ex.map(one, hs)))
    viol, kf, unconfirmed, vac = [], [], [], []
    os.makedirs(f"{OUT}/replay", exist_ok=True)
    for h, r in res.items():
        for v in r["violations"]:
            rc, out = replay(prop, h, v["input"], env)
            rp = f"{OUT}/replay/{prop}_{h}_{hashlib.sha256(v['label'].encode()).hexdigest()[:8]}.json"
            json.dump({"property": prop, "harness": h, "tier": tier, "label": v["label"], "inputs": v["input"], "described": v["desc"], "native_exit": rc, "native_output": out[-4000:], "how": f"python3 {VERIF}/check.py replay {rp}"}, open(rp, "w"), indent=1)
            (viol if rc not in (0, 77) else unconfirmed).append((h, v, rp, out))
        for lab in cfg.get("must_reach", {}).get(h, []):
            if not r["reached"].get(lab) and not r["violations"]: vac.append(f"{h}:{lab}")
        for k in known:
            if k["harness"] == h and r["reached"].get("KNOWN:" + k["id"]): kf.append(k)
    tot = lambda k: sum(r[k] for r in res.values())
    msum = lambda k: sum(sum(r[k].values()) for r in res.values())
    fns = sorted(set(f for r in res.values() for f in r["branch_functions"]))
    dm = [d for d in demangle(fns) if d]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("queries_sat") + tot("queries_unsat"), "traces_validated_against_impl": tot("runs"),
            "samples": [s for r in res.values() for s in r["samples"][:1]][:12] or ["none"],
            "explanation": "Dynamic symbolic execution of the LLVM IR compiled from /repo's current sources: states = distinct symbolic paths decided (each stands for all inputs satisfying its path condition), transitions = SMT queries decided (branch alternatives and negated assertions), traces_validated_against_impl = executions of the real code, one per path, on a solver model of that path.",
            "exhaustive": all(r["complete"] for r in res.values()),
            "bounds": cfg.get("bounds", {}), "outside": cfg.get("outside", ""),
            "functions_with_symbolic_branches": [d for d in dm if "meshkernel" in d.lower() or "mkernel" in d][:200],
            "queries": {"sat": tot("queries_sat"), "unsat": tot("queries_unsat"), "unknown": tot("queries_unknown"), "cached": tot("queries_cached"), "floating_point_theory": tot("queries_fp")},
            "solver_s": round(tot("solver_s"), 3), "assertions_discharged_by_solver": msum("asserts_solver"), "assertions_folded_on_path": msum("asserts_folded"), "assertions_unknown": msum("asserts_unknown"),
            "translator_self_checks": tot("translator_checks"), "translator_mismatches": tot("translator_mismatches"),
            "harnesses": {h: {k: r[k] for k in ("complete", "truncated", "pending", "paths", "runs", "assume_rejected", "unknown", "divergences", "tie_unreached", "splits", "weakened_queries", "concretisations", "stale_shadow", "queries_sat", "queries_unsat", "queries_unknown", "solver_s", "max_events", "max_nodes", "asserts_solver", "asserts_folded", "asserts_unknown", "reached", "wall_s")} for h, r in res.items()},
            "concretised_in": {k: v for r in res.values() for k, v in r["concretised_in"].items()},
            "objects_rebuilt": nbuilt, "build_s": round(tb, 1), "unconfirmed": [f"{h}: {v['label']}" for h, v, _, _ in unconfirmed], "vacuous": vac, "known_findings": [k["id"] for k in kf],
        },
        "assumptions": cfg.get("assumptions", []) + ["single-threaded build (OpenMP pragmas off)", "clang -O1 semantics of the sources, x86-64 IEEE doubles, no FMA contraction", "z3 is sound"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for h, r in res.items():
        print(f"{prop}/{h}: {'complete' if r['complete'] else 'partial'} paths={r['paths']} queries={r['queries_sat']}+{r['queries_unsat']}+{r['queries_unknown']} asserts={sum(r['asserts_solver'].values())}/{sum(r['asserts_folded'].values())} unk={r['unknown']} div={r['divergences']} tie={r['tie_unreached']} splits={r['splits']} conc={r['concretisations']} stale={r['stale_shadow']} mm={r['translator_mismatches']} pend={r['pending']} wall={r['wall_s']:.1f}")
        if "-v" in sys.argv:
            for k in ("hot", "unknown_at", "diverge_at", "concretised_in", "asserts_unknown", "reached"):
                if r[k]: print("    ", k, dict(sorted(r[k].items(), key=lambda kv: -kv[1])[:8]))
    for h, v, rp, out in unconfirmed: print(f"note: {h}: '{v['label']}' on {v['desc']} did not reproduce in the native build; not reported as a violation")
    for v in vac: print(f"note: reachability witness {v} not reached")
    for k in kf: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: build {tb:.0f}s ({nbuilt} objects), total {time.time()-t0:.0f}s")
    if viol:
        for h, v, rp, out in viol:
            print(f"{h}: {v['label']} [{v['kind']}] inputs: {' '.join(v['desc'][:60])}")
            for l in out.strip().split("\n")[-3:]: print("   native:", l)
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0

def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "setup":
            build_engine(); t = time.time(); _, n = build_objects("sym", sources()); print(f"compiled {n} objects in {time.time()-t:.0f}s"); return 0
        if a and a[0] == "run":
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a: tier = a[a.index("--tier") + 1]
            return run(a[1], tier)
        if a and a[0] == "replay":
            f = json.load(open(a[1])); build_engine(); rc, out = replay(f["property"], f["harness"], f["inputs"], dict(os.environ, VERIF_TIER=f.get("tier", "quick"))); print(out); return 1 if rc not in (0, 77) else 0
    except BuildError as e:
        print("ERROR:", e); return 3
    print(__doc__); return 2

if __name__ == "__main__": sys.exit(main())
