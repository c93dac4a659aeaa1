#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the real code.
   run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--keep] [-v]
exit 0: held on everything explored; exit 1: a natively confirmed violation was found (VIOLATION line)."""
import sys, os, json, subprocess, time, hashlib, tempfile, shutil, threading, queue, collections, re, signal
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
import jobs as J
NC = max(2, min(8, os.cpu_count() or 8))
BUILD = os.path.join(V, "build"); VSE = os.path.join(BUILD, "vse")
CF = "-w -std=gnu++17 -O1 -fno-inline -march=haswell -fno-vectorize -fno-slp-vectorize -DNDEBUG".split()
NF = "-w -std=gnu++17 -O1 -march=haswell -fopenmp -DNDEBUG".split()
INC = ["-I" + V + "/inc", "-I" + REPO, "-I" + V + "/cfg"]
LIBS = "-lgivaro -lgmpxx -lgmp -lopenblas".split()
def sh(cmd, timeout=600, **kw):
    try: return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 124, "", "timeout")
def setup():
    r = sh(["make", "-C", V + "/engine", "-j4", "OUT=" + BUILD], 1500)
    if r.returncode: print("engine build failed\n" + r.stderr[-2000:]); return False
    b = BUILD + "/blas.bc"; src = V + "/inc/blas_model.c"
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        r = sh("clang -O1 -ffp-contract=off -march=haswell -fno-vectorize -fno-slp-vectorize -emit-llvm -c".split() + [src, "-o", b + ".%d" % os.getpid()])
        if r.returncode: print("blas model build failed"); return False
        os.replace(b + ".%d" % os.getpid(), b)
    b = BUILD + "/omp.bc"; src = V + "/inc/omp_model.c"
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        r = sh("clang -w -O1 -march=haswell -fno-vectorize -fno-slp-vectorize -emit-llvm -c".split() + [src, "-o", b + ".%d" % os.getpid()])
        if r.returncode: print("omp model build failed"); return False
        os.replace(b + ".%d" % os.getpid(), b)
    return True
class Pool:
    def __init__(s, n): s.n = n
    def map(s, f, xs, onidle=None):
        q = queue.Queue(); xs = list(xs); out = [None] * len(xs)
        for i, x in enumerate(xs): q.put((i, x))
        def w():
            while True:
                try: i, x = q.get_nowait()
                except queue.Empty: break
                try: out[i] = f(x)
                except Exception as e: out[i] = e
            if onidle: onidle()
        ts = [threading.Thread(target=w) for _ in range(min(s.n, len(xs)) or 1)]
        for t in ts: t.start()
        for t in ts: t.join()
        return out
def key(j): return hashlib.sha1((j["h"] + "|" + j["defs"]).encode()).hexdigest()[:10]
def main():
    a = sys.argv[1:]; prop = a[0]
    if prop == "setup": sys.exit(0 if setup() else 1)
    tier = os.environ.get("VERIF_TIER", "quick") if "--tier" not in a else a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    only = a[a.index("--only") + 1] if "--only" in a else None; verbose = "-v" in a; keep = "--keep" in a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    os.makedirs(V + "/evidence", exist_ok=True)
    if not setup(): sys.exit(1)
    P = J.PROPS[prop]; jl = [dict(j) for j in P["jobs"] if tier == "thorough" or j.get("tier", "q") == "q"]
    if only: jl = [j for j in jl if only in j["h"] + " " + j["defs"] + " " + json.dumps(j.get("set", {}))]
    total = P.get("quick_s", 240) if tier == "quick" else P.get("thorough_s", 3000)
    W = tempfile.mkdtemp(prefix="vse-%s-" % prop); ended = []
    try: rc = work(prop, P, tier, jl, total, W, seed, t0, verbose)
    finally:
        if not keep: shutil.rmtree(W, ignore_errors=True)
        else: print("kept", W)
    sys.exit(rc)
def wkey(h, defs, st): return hashlib.sha1((h + "|" + defs + "|" + json.dumps(st, sort_keys=True)).encode()).hexdigest()[:10]   # cost measured on the reference tree, only used to order the jobs
def work(prop, P, tier, jl, total, W, seed, t0, verbose):
    # 1. intermediate representation of the current source
    vs = {}
    for j in jl: vs.setdefault(key(j), j)
    def comp(k):
        j = vs[k]; o = "%s/%s.bc" % (W, k)
        r = sh(["clang++"] + CF + (["-fopenmp"] if j.get("omp") else []) + INC + j["defs"].split() + ["-emit-llvm", "-c", "%s/h/%s.cpp" % (V, j["h"]), "-o", o + ".0"])
        if r.returncode: return (k, r.stderr[-1500:])
        r = sh(["llvm-link-18", o + ".0", BUILD + "/blas.bc"] + ([BUILD + "/omp.bc"] if j.get("omp") else []) + ["-o", o]); 
        if r.returncode == 0: os.unlink(o + ".0")
        return (k, None if r.returncode == 0 else r.stderr[-800:])
    cerr = {k: e for k, e in Pool(NC).map(comp, list(vs)) if e}
    for k, e in cerr.items(): print("note: harness %s %s does not compile against this tree; not explored\n%s" % (vs[k]["h"], vs[k]["defs"], e[-600:]))
    run = [j for j in jl if key(j) not in cerr]; tc = time.time() - t0
    # 2. symbolic execution
    tok = W + "/tok"; n0 = min(NC, max(1, len(run)))
    with open(tok, "wb") as f: f.write(int(NC - n0).to_bytes(4, "little") + b"\0" * 4092)
    deadline = t0 + total; started = [0]
    def explore(ij):
        i, j = ij; left = deadline - time.time(); started[0] += 1; fair = max(10, 3.0 * left * NC / max(1, len(run) - started[0] + 1))
        tmo = min(j.get("time", 60) * (1 if tier == "quick" else 8), left, fair); out = "%s/out%d.jsonl" % (W, i)
        if tmo < 3: return dict(skipped=True)
        cmd = [VSE, "%s/%s.bc" % (W, key(j)), out, "--time=%g" % tmo, "--tokfile=" + tok, "--seed=%d" % seed, "--lib=libgivaro.so", "--lib=libgmpxx.so", "--models=%d" % j.get("models", 3), "--tag=%d" % i, "--inst=%d" % j.get("inst", 300000000), "--paths=%d" % j.get("paths", 400000), "--concretize=%d" % j.get("conc", 128 if "-DMIX" in j["defs"] else 0)] + ["--set=%s=%d" % (k, v) for k, v in j.get("set", {}).items()]
        ts = time.time(); r = sh(cmd, tmo + 90); res = dict(wall=time.time() - ts, rc=r.returncode, err=r.stderr[-300:], lines=[])
        try:
            for l in open(out):
                try: res["lines"].append(json.loads(l))
                except ValueError: pass
        except OSError: pass
        return res
    natlock = threading.Lock(); natst = {}; stats = collections.Counter()
    def native(j, asan):
        k = (key(j), asan)
        with natlock: ev = natst.get(k); first = ev is None; ev = natst.setdefault(k, threading.Event())
        b = "%s/n_%s%s" % (W, k[0], "_a" if asan else "")
        if first:
            fl = NF + (["-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if asan else [])
            if j.get("omp"): # clang's lowering of OpenMP against the runtime model, so that a task schedule can be replayed
                fl = [x for x in fl if x != "-fopenmp"]; r = sh(["clang++", "-fopenmp", "-c"] + fl + INC + j["defs"].split() + ["%s/h/%s.cpp" % (V, j["h"]), "-o", b + ".o"])
                if r.returncode == 0: r = sh(["clang", "-w", "-O1", "-DVS_NATIVE", "-c", V + "/inc/omp_model.c", "-o", b + ".m.o"])
                if r.returncode == 0: r = sh(["clang++"] + fl + [b + ".o", b + ".m.o", V + "/engine/native.cpp", "-o", b] + LIBS)
            else: r = sh(["g++"] + fl + INC + j["defs"].split() + ["%s/h/%s.cpp" % (V, j["h"]), V + "/engine/native.cpp", "-o", b] + LIBS)
            if r.returncode: stats["native_build_failures"] += 1
            ev.set()
        else: ev.wait()
        return b if os.path.exists(b) else None
    if tier == "quick":   # native builds for the model replays of a bounded set of configurations, overlapped with the exploration
        keepk = sorted({key(j) for j in run}, key=lambda k: hashlib.sha1((k + str(seed)).encode()).hexdigest())[:4]; kj = {key(j): j for j in run}; nq = [kj[k] for k in keepk]
        def prebuild():
            while nq and time.time() < deadline: native(nq.pop(0), False)
        pbt = [threading.Thread(target=prebuild, daemon=True) for _ in range(2)]
        for t in pbt: t.start()
    try: wt = json.load(open(V + "/weights.json"))
    except (OSError, ValueError): wt = {}
    order = sorted(range(len(run)), key=lambda i: wt.get(wkey(run[i]["h"], run[i]["defs"], run[i].get("set", {})), run[i].get("time", 60)))   # cheap jobs first: the deadline then only cuts the expensive ones
    outs = dict(zip(order, Pool(n0).map(explore, [(i, run[i]) for i in order], lambda: sh([VSE, "addtok", tok, "1"]))))
    tx = time.time() - t0
    # 3. native replay of candidate counterexamples and of sampled path models
    tasks = []; perjob = []
    for i, j in enumerate(run):
        o = outs[i]
        if isinstance(o, Exception) or o is None: o = dict(skipped=True, note=str(o), lines=[])
        o.setdefault("lines", [])
        s = next((l for l in o["lines"] if l["kind"] == "summary"), None); groups = collections.OrderedDict(); nm = 0; unsup = collections.Counter(); bud = 0
        for l in o["lines"]:
            if l["kind"] == "cand":
                g = (re.sub(r"[\d\-]+", "#", l["msg"])[:120], json.dumps(l["choices"], sort_keys=True)); groups.setdefault(g, []).append(l)
            elif l["kind"] == "model" and nm < j.get("models", 3): nm += 1; tasks.append((i, j, l, "model"))
            elif l["kind"] in ("unsup", "error", "crash"): unsup[l.get("msg", l["kind"])[:160]] += 1
            elif l["kind"] == "budget": bud += 1
        for g in list(groups)[:30]:
            for l in groups[g][:2]: tasks.append((i, j, l, "cand"))
        pj = dict(harness=j["h"], config=j["defs"], preset=j.get("set", {}), wall_s=round(o.get("wall", 0), 2))
        if s:
            for k in ("paths", "forks", "killed", "cands", "unsup", "budget", "eqs", "ranges", "checks", "obligations", "z3q", "z3unsat", "z3sat", "z3unk", "z3skip", "z3_s", "inst", "merges", "symin", "reach"): stats[k] += s.get(k, 0); pj[k] = s.get(k, 0)
            stats["jobs_complete"] += 1 if not (s["unsup"] or s["budget"] or s["cands"]) else 0; pj["functions"] = s["functions"]
        else: pj["note"] = "no result: %s %s" % (o.get("note", ""), o.get("err", "")); stats["jobs_lost"] += 1
        if s and not s.get("reach") and not (s["unsup"] or s["budget"] or s["cands"]): pj["note"] = "vacuous: no path reaches the end"; stats["vacuous"] += 1
        if unsup: pj["unsupported"] = dict(unsup.most_common(4))
        perjob.append(pj)
    if tier == "quick": ck = {key(t[1]) for t in tasks if t[3] == "cand"} | set(keepk); tasks = [t for t in tasks if t[3] == "cand" or key(t[1]) in ck]
    tasks.sort(key=lambda t: t[3] != "cand")
    def replay1(b, choices, inp, d, asan, tmo=20):
        f = os.path.join(d, "inputs.txt"); os.makedirs(d, exist_ok=True)
        with open(f, "w") as h:
            for k, v in choices.items(): h.write("C %s %d\n" % (k, v))
            for k, v in inp.items(): h.write("I %s %d\n" % (k, v))
        env = dict(os.environ, MALLOC_PERTURB_="165", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=1000000:malloc_fill_byte=165", TMPDIR=d)
        r = sh([b, f], tmo, env=env, cwd=d); o = (r.stdout or "") + (r.stderr or "")
        if r.returncode == 0 and "REPLAY-OK" in r.stdout: return None
        if r.returncode == 12 or r.returncode == 3: return None
        if r.returncode == 124: return "does not terminate within %d s" % tmo
        m = re.search(r"REPLAY-FAIL (.*)", o)
        if m: return m.group(1)
        m = re.search(r"ERROR: AddressSanitizer: (.*)", o)
        if m: return "AddressSanitizer: " + m.group(1)[:200]
        if r.returncode < 0: return "crashed with signal %d" % -r.returncode
        return None
    confirmed = []; seen = set(); clock = threading.Lock()
    rdl = time.time() + (300 if tier == "quick" else 1200)
    def rep(t):
        n, (i, j, l, kind) = t
        if time.time() > rdl: stats["replay_skipped"] += 1; return
        mem = kind == "cand" and re.match(r"out-of-bounds|use after|double free|invalid free|freed|access", l["msg"]) is not None; g = (i, re.sub(r"[\d\-]+", "#", l.get("msg", ""))[:60])
        if kind == "cand" and g in seen: return
        for asan in ([True] if mem else [False]):
            b = native(j, asan)
            if not b: return
            inps = l["inputs"] if isinstance(l["inputs"], list) else [l["inputs"]]
            for q, inp in enumerate(inps[:1] if kind == "model" else inps):
                stats["replays_" + kind] += 1; d = "%s/r%d" % (W, n)
                f = replay1(b, l["choices"], inp, d, asan)
                if f and replay1(b, l["choices"], inp, d, asan):
                    with clock: seen.add(g); confirmed.append((j, l, inp, f, asan, kind))
                    return
        if kind == "cand": stats["unconfirmed"] += 1; 
    Pool(NC).map(rep, enumerate(tasks))
    # 4. verdict
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == prop and k["status"] == "known"]
    rc = 0; viol = []; seenk = set(); printed = 0
    for (j, l, inp, f, asan, kind) in confirmed:
        kf = next((k for k in known if k["harness"] == j["h"] and re.search(k.get("config", ""), j["defs"]) and all(l["choices"].get(c) in (v if isinstance(v, list) else [v]) for c, v in k.get("choices", {}).items()) and re.search(k["failure"], f)), None)
        if kf:
            if kf["id"] not in seenk: seenk.add(kf["id"]); print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
            continue
        rc = 1; rid = "%s-%s" % (prop, hashlib.sha1((j["h"] + j["defs"] + json.dumps(l["choices"], sort_keys=True) + f).encode()).hexdigest()[:8]); rd = "%s/evidence/replays/%s" % (V, rid); shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
        with open(rd + "/inputs.txt", "w") as h:
            for k, v in l["choices"].items(): h.write("C %s %d\n" % (k, v))
            for k, v in inp.items(): h.write("I %s %d\n" % (k, v))
        with open(rd + "/replay.sh", "w") as h:
            h.write("#!/bin/sh\n# replays the counterexample against the current /repo: exit 0 = property holds on it\nd=$(dirname \"$0\"); t=$(mktemp -d); g++ %s %s %s %s/h/%s.cpp %s/engine/native.cpp -o $t/r %s && MALLOC_PERTURB_=165 timeout 60 $t/r $d/inputs.txt; r=$?; rm -r $t; exit $r\n" % (" ".join(NF + (["-g", "-fsanitize=address"] if asan else [])), " ".join(INC), " ".join("'%s'" % x for x in j["defs"].split()), V, j["h"], V, " ".join(LIBS)))
        os.chmod(rd + "/replay.sh", 0o755)
        with open(rd + "/report.json", "w") as h: json.dump(dict(property=prop, harness=j["h"], config=j["defs"], choices=l["choices"], inputs=inp, engine=l.get("msg", "path model"), native=f, kind=kind), h, indent=1)
        viol.append(dict(harness=j["h"], config=j["defs"], choices=l["choices"], inputs=inp, engine=l.get("msg", ""), native=f, replay=rd))
        if printed < 5: print("VIOLATION property=%s replay=%s" % (prop, rd)); print("  %s [%s] %s: %s (engine: %s)" % (j["h"], j["defs"], json.dumps(l["choices"]), f, l.get("msg", "path model")[:160])); printed += 1
    fn = collections.Counter()
    for pj in perjob:
        for f in pj.pop("functions", []): fn[re.sub(r"Givaro::|FFLAS::|, void>", lambda m: "" if m.group(0) != ", void>" else ">", f)[:110]] += 1
    unc = [dict(msg=t[2]["msg"][:300], harness=t[1]["h"], config=t[1]["defs"], choices=t[2]["choices"]) for t in tasks if t[3] == "cand"][:25] if stats["unconfirmed"] else []
    ob = stats["obligations"] + stats["checks"]
    cov = dict(explanation="solver-based symbolic execution of the LLVM IR compiled from /repo's current source; every path within the stated bounds is executed with symbolic matrix entries, each path's value and range obligations are discharged by z3 (unsat = holds for all values), counterexamples are replayed natively before being reported",
        bounds=P["bounds"], outside=P.get("outside", ""), evaluations=stats["paths"], distinct_nontrivial=stats["reach"], rule="one evaluation = one completed symbolic path (a distinct set of branch conditions over symbolic inputs, each standing for all inputs that satisfy it); non-trivial = it reached the end of the harness with its assertions evaluated (vacuity witness)",
        samples=[{k: pj[k] for k in ("harness", "config", "preset")} for pj in perjob[:6]], jobs=len(run), jobs_complete=stats["jobs_complete"], jobs_without_result=stats["jobs_lost"] + len(cerr), harness_compile_errors=len(cerr),
        symbolic_inputs=stats["symin"], paths=stats["paths"], forks=stats["forks"], infeasible_paths_pruned=stats["killed"], instructions_executed=stats["inst"], merged_branches=stats["merges"],
        obligations=stats["obligations"], structural_checks=stats["checks"], equality_obligations=stats["eqs"], range_obligations=stats["ranges"], smt_queries=stats["z3q"], smt_unsat=stats["z3unsat"], smt_sat=stats["z3sat"], smt_unknown=stats["z3unk"], smt_skipped=stats["z3skip"], solver_time_s=round(stats["z3_s"], 2),
        candidates=stats["cands"], candidates_confirmed_natively=len(confirmed), candidates_unconfirmed=stats["unconfirmed"], paths_unsupported=stats["unsup"], paths_cut_by_budget=stats["budget"], native_replays_of_candidates=stats["replays_cand"], native_replays_of_path_models=stats["replays_model"], native_build_failures=stats["native_build_failures"],
        unconfirmed_candidates=unc, known_findings=sorted(seenk), functions_encoded=len(fn), functions=[f for f, _ in fn.most_common(140)], per_job=perjob, compile_s=round(tc, 1), explore_s=round(tx - tc, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=P.get("assume", []) + J.ASSUME, violations=len(viol)); cov["violation_details"] = viol
    tmp = "%s/evidence/.%s.%d" % (V, prop, os.getpid()); json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, "%s/evidence/%s.json" % (V, prop))
    print("%s %s: jobs=%d complete=%d paths=%d (end %d) obligations=%d checks=%d smt=%d unsat=%d unknown=%d solver=%.1fs cand=%d confirmed=%d unsup=%d budget=%d models=%d lost=%d wall=%.1fs (compile %.0f explore %.0f)" % (prop, tier, len(run), stats["jobs_complete"], stats["paths"], stats["reach"], stats["obligations"], stats["checks"], stats["z3q"], stats["z3unsat"], stats["z3unk"], stats["z3_s"], stats["cands"], len(confirmed), stats["unsup"], stats["budget"], stats["replays_model"], stats["jobs_lost"] + len(cerr), time.time() - t0, tc, tx - tc))
    if verbose:
        for pj in perjob: print("  %-10s %-60s %s paths=%s end=%s cand=%s unsup=%s bud=%s unk=%s t=%s %s %s" % (pj["harness"], pj["config"][-60:], pj["preset"], pj.get("paths"), pj.get("reach"), pj.get("cands"), pj.get("unsup"), pj.get("budget"), pj.get("z3unk"), pj["wall_s"], pj.get("unsupported", ""), pj.get("note", "")))
        for u in unc[:8]: print("  UNCONF", u)
    return rc
if __name__ == "__main__": main()
