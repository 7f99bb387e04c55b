#!/usr/bin/env python3
"""Driver of the checks.

check.py build                  build the engine (setup_cmd)
check.py C01 [C02 ...]          decide the properties; VERIF_TIER=quick|thorough
check.py C01 --only INSTANCE    one instance, summary on stdout
check.py C01 --replay FILE      run a counterexample file on the real code
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
sys.dont_write_bytecode = True
import srccopy
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
ZI = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = ["g++", "-std=c++17", "-w"]
# freed memory is overwritten and not handed back through the thread cache, so that a value read before it is written shows
MALLOC = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.perturb=189:glibc.malloc.tcache_count=0")
HFLAGS = ["-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-I", f"{V}/engine", "-I", f"{V}/harness"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
BUDGET = {"quick": 150, "thorough": 1500}
WALL = {"quick": 600, "thorough": 7200}

SUF = (".hpp", ".cpp", ".h", ".ipp", ".tpp", ".inl")
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]
def tree(d, suf=(".hpp", ".cpp", ".h")):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(suf)]
def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
class BuildError(Exception): pass
def cc(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    r = run(cmd + ["-o", tmp])
    if r.returncode: raise BuildError(" ".join(cmd[-3:]) + "\n" + "\n".join([l for l in r.stdout.splitlines() if "error" in l or "required from" in l][:12]))
    os.replace(tmp, out)
def locked(name, fn):
    with open(os.path.join(B, name + ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return fn()
def engine():
    d = digest(tree(f"{V}/engine"))
    e, r = f"{B}/engine-{d}.o", f"{B}/replay-{d}.o"
    def go():
        with cf.ThreadPoolExecutor(2) as ex:
            fs = []
            if not os.path.exists(e): fs.append(ex.submit(cc, CXX + ["-O2", "-DVF_SYM", "-I", f"{V}/engine", "-I", f"{ZI}/include", "-c", f"{V}/engine/engine.cpp"], e))
            if not os.path.exists(r): fs.append(ex.submit(cc, CXX + ["-O1", "-I", f"{V}/engine", "-c", f"{V}/engine/replay.cpp"], r))
            for f in fs: f.result()
        return e, r
    return locked("engine", go)
def copied(stage):
    """/repo/src with its floating literals spelled double(..): see srccopy.py"""
    out = f"{B}/src{stage}-" + digest(tree(f"{REPO}/src", SUF) + [f"{V}/srccopy.py"])
    def go():
        if os.path.isdir(out): return out
        for f in os.listdir(B):
            if f.startswith(f"src{stage}-"): shutil.rmtree(f"{B}/{f}", ignore_errors=True)
        shutil.rmtree(out + ".tmp", ignore_errors=True)
        srccopy.copy(f"{REPO}/src", out + ".tmp/src", stage); os.rename(out + ".tmp", out)   # "../src/x.hpp" is how they include
        return out
    return locked(f"src{stage}", go)
def symcc(src, out):
    """the symbolic build: from the copy; a source the copy does not suit is taken as it is"""
    first = None
    for st in (11, 12, 1, 2, 0):
        try: return cc(CXX + HFLAGS + ["-I", copied(st) + "/src" if st else f"{REPO}/src", "-DVF_SYM", "-c", src], out)
        except BuildError as e: first = first or e
    raise first
def harness(src, eng):
    name = os.path.basename(src)[:-4]
    d = digest(tree(f"{V}/engine") + tree(f"{REPO}/src", SUF) + [f"{V}/srccopy.py"] + [src] + [p for p in tree(f"{V}/harness") if p.endswith(".hpp")], " ".join(HFLAGS))
    s, r = f"{B}/{name}-{d}.sym", f"{B}/{name}-{d}.rep"
    def go():
        if os.path.exists(s) and os.path.exists(r): return s, r
        for f in os.listdir(B):
            if re.match(re.escape(name) + r"-[0-9a-f]{20}\.(sym|rep)", f): os.unlink(f"{B}/{f}")
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(symcc, src, s + ".o")
            b = ex.submit(cc, CXX + HFLAGS + ["-I", f"{REPO}/src", "-frounding-math", "-c", src], r + ".o")
            a.result(); b.result()
        e, ro = eng()
        cc(["g++", s + ".o", e, f"{ZI}/lib/libz3.so", f"-Wl,-rpath,{ZI}/lib", "-lgmpxx", "-lgmp"], s)
        cc(["g++", r + ".o", ro], r)
        os.unlink(s + ".o"); os.unlink(r + ".o")
        return s, r
    return locked(name, go)
def sources(pid):
    hd = f"{V}/harness"
    return sorted(f"{hd}/{f}" for f in os.listdir(hd) if f.startswith(pid) and f.endswith(".cpp"))
def findings():
    out = []
    with open(f"{V}/known_findings.jsonl") as f:
        for l in f:
            if l.strip(): out.append(json.loads(l))
    return out
def runInstance(job):
    (sym, rep, inst, budget, d, t0) = job
    left = WALL[TIER] - (time.time() - t0)
    if left < 3: return {"instance": inst, "truncated": True, "trunc_why": "check time limit, not started", "error": "", "violations": [], "paths": 0, "skipped": True}
    o = f"{d}/{inst}.json"
    b = min(budget, left)
    try:
        p = subprocess.run([sym, "--instance", inst, "--replay", rep, "--dir", d, "--out", o, "--budget", str(int(b))], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=b + 240, env=MALLOC)
        with open(o) as f: return json.load(f)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", f"{sym} --instance {inst} "], check=False)
        return {"instance": inst, "error": "", "truncated": True, "trunc_why": "engine wall limit", "violations": [], "paths": 0, "skipped": True}
    except (FileNotFoundError, ValueError) as e:
        return {"instance": inst, "error": "engine gave no result: %s" % e, "violations": [], "paths": 0, "truncated": False}

def check(pid, only=None, verbose=False):
    t0 = time.time()
    os.makedirs(B, exist_ok=True); os.makedirs(f"{V}/evidence", exist_ok=True)
    srcs = sources(pid)
    if not srcs: print(f"no harness for {pid}"); return 2
    outd = f"{V}/evidence/{pid}.d"; shutil.rmtree(outd, ignore_errors=True); os.makedirs(outd)
    jobs = []; results = []; errs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        ef = ex.submit(engine)
        hs = [(s, ex.submit(harness, s, ef.result)) for s in srcs]
        try:
            pend = []
            for s, h in hs:
                sym, rep = h.result()
                hn = os.path.basename(s)[:-4]
                for line in run([sym, "--list"]).stdout.splitlines():
                    tier, inst, desc = line.split("\t")
                    if only and inst not in only: continue
                    if not only and tier == "thorough" and TIER == "quick": continue
                    pend.append((hn, tier, ex.submit(runInstance, (sym, rep, inst, BUDGET[TIER], outd, t0))))
            for hn, tier, f in pend:
                r = f.result(); r["harness"] = hn; r["tier"] = tier; results.append(r)
        except BuildError as e:
            errs.append("build: " + str(e))
    known = {f["instance"]: f for f in findings() if f["property"] == pid and f["kind"] == "finding"}
    viol = []; kf = []; incomplete = []; undec = 0
    for r in results:
        if r["error"]: errs.append(f'{r["harness"]}:{r["instance"]}: {r["error"]}')
        k = known.get(r["instance"])
        for v in r["violations"]:
            if r["tier"] == "known" and k and v["check"].split(":")[0] == k["check"]: kf.append((k, v))
            else: viol.append((r, v))
        cs = r.get("checks", {})
        u = sum(c["undecided"] + c["unconfirmed"] for c in cs.values()); undec += u
        if r["tier"] == "known": continue
        if r.get("truncated") or u: incomplete.append({"instance": r["instance"], "why": r.get("trunc_why") or f"{u} obligations undecided"})
        elif not r["error"] and not r["violations"] and not r.get("reached", {}).get("end"): errs.append(f'{r["instance"]}: vacuous, no path reached the end of the harness')
    S = lambda k: sum(r.get(k, 0) or 0 for r in results)
    names = {}
    for r in results:
        for e in r.get("encodes", "").split(";"):
            if e.strip(): names[e.strip()] = 1
    obl = {}
    for r in results:
        for c, x in r.get("checks", {}).items():
            o = obl.setdefault(c, {"evaluated": 0, "solver_proved": 0, "syntactic": 0, "undecided": 0})
            o["evaluated"] += x["evals"]; o["solver_proved"] += x["proved"]; o["syntactic"] += x["trivial"]; o["undecided"] += x["undecided"] + x["unconfirmed"]
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
          "coverage": {"states": S("branches") + S("paths"), "transitions": S("forks") + S("choices") + S("paths"),
                       "traces_validated_against_impl": S("validated"), "traces_not_validated": S("mismatch"),
                       "samples": [f'{r["instance"]}: {s}' for r in results for s in r.get("samples", [])[:2]][:12],
                       "paths": S("paths"), "paths_outside_assumptions": S("aborted"), "branch_points": S("branches"), "forks": S("forks"),
                       "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "solver_s": round(S("solver_s"), 3),
                       "obligations": obl, "functions_encoded": sorted(names),
                       "bounds": [{"instance": r["instance"], "bounds": r.get("desc", ""), "paths": r["paths"], "wall_s": r.get("wall_s"), "complete": not r.get("truncated") and not r["error"], "outcome": "violated" if r["violations"] else "held"} for r in results],
                       "incomplete": incomplete, "known_findings_seen": [k["what"] for k, _ in kf],
                       "notes": [f'{r["instance"]}: {n}' for r in results for n in r.get("notes", [])[:3]][:20],
                       "errors": errs},
          "assumptions": ["scalars are mathematical reals (rounding, overflow and NaN of IEEE doubles outside the claim, except the values inf/nan written by the code itself)",
                          "sizes, ranges and skeletons as in coverage.bounds; everything outside them is outside the claim",
                          "randomness is an arbitrary choice (std::shuffle, distributions, Eigen Random replaced by stubs)",
                          "z3 / cvc5 unsat answers and the engine's exact normal form are trusted; sampled paths are replayed on the double build"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(f"{V}/evidence/{pid}.json", "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    if verbose:
        for r in results:
            print(f'{r["tier"]:8} {r["instance"]:24} paths {r["paths"]} ab {r.get("aborted")} q {r.get("queries")} unk {r.get("unknown")} wall {r.get("wall_s", 0):.1f} solver {r.get("solver_s", 0):.1f} val {r.get("validated")} mis {r.get("mismatch")}', "TRUNC " + r["trunc_why"] if r.get("truncated") else "", r["error"])
            if verbose > 1: print("    ", {c: tuple(x.values()) for c, x in r.get("checks", {}).items()}, r.get("reached"))
            for n in r.get("notes", [])[:5]: print("     note", n[:300])
            for v in r["violations"]: print("     VIOL", v["check"], v["detail"][:500])
    for k, v in kf: print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    for r, v in viol:
        print(f'VIOLATION property={pid} replay={v["replay"]}')
        print(f'  instance {r["instance"]} check {v["check"]}: {v["detail"][:400]}')
    for i in incomplete: print(f'incomplete: {pid} {i["instance"]}: {i["why"]}')
    for e in errs: print(f"error: {pid} {e}")
    print(f'{pid}: {len(results)} instances, {S("paths")} paths, {S("queries")} queries, {undec} undecided, {len(viol)} violations, {time.time() - t0:.1f} s')
    if viol: return 1
    return 2 if errs else 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "build":
        os.makedirs(B, exist_ok=True)
        try: engine()
        except BuildError as e: print(e); return 2
        return 0
    only = None; verbose = 0; rep = None; ids = []
    i = 0
    while i < len(a):
        if a[i] == "--only": only = a[i + 1].split(","); i += 1
        elif a[i] == "--replay": rep = a[i + 1]; i += 1
        elif a[i] == "-v": verbose = 1
        elif a[i] == "-vv": verbose = 2
        else: ids.append(a[i])
        i += 1
    if rep:
        os.makedirs(B, exist_ok=True)
        for s in sources(ids[0]):
            _, r = harness(s, engine)
            p = run([r, rep])
            if p.returncode != 5: print(p.stdout, "exit", p.returncode); return 1 if p.returncode in (10, 12) or p.returncode < 0 else 0
        return 2
    rc = 0
    for pid in ids: rc = max(rc, check(pid, only, verbose), key=lambda x: {0: 0, 2: 1, 1: 2}[x])
    return rc
sys.exit(main())
