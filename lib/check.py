#!/usr/bin/env python3
"""Driver of one property check: compile the harnesses against /repo's current headers (LLVM bitcode for the solver-based
engine, native binaries for replay), run the engine, replay what it reports, write the evidence file."""
import sys, os, json, subprocess, tempfile, time, shutil, concurrent.futures as cf, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BSX_REPO", "/repo")
H = os.path.join(V, "harness")
sys.path.insert(0, os.path.join(V, "lib"))
import checks as C

BSX = os.path.join(V, "build", "bsx")

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def ensure_engine():
    r = sh(["bash", os.path.join(V, "engine", "build.sh"), os.path.join(V, "build")])
    if r.returncode or not os.path.exists(BSX):
        print(r.stdout); print("engine build failed"); sys.exit(2)

def ir_cmd(src, out, tier, omp, extra):
    return ["clang++-18", "-std=c++17", "-O1", "-I" + os.path.join(H, "shim"), "-I" + H, "-I" + REPO + "/include", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
            "-DBSX_TIER=%d" % tier, "-DBSX_SYMBOLIC", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-w",
            "-emit-llvm", "-c", src, "-o", out] + (["-fopenmp"] if omp else []) + extra

def nat_cmd(src, out, tier, omp, extra, san):
    f = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-g1"] if san == "asan" else []
    return ["g++", "-std=c++17", "-O1", "-w", "-I" + H, "-I" + REPO + "/include", "-DBSX_TIER=%d" % tier] + f + \
        ["-rdynamic", src, os.path.join(H, "rt", "native.cpp"), "-o", out, "-ldl", "-lpthread"] + (["-fopenmp"] if omp else []) + extra

def traces_file(path, traces):
    with open(path, "w") as f:
        for t in traces:
            f.write(" ".join("%s=%d" % (n, v) for n, v in t) + "\n")

def run_native(binary, entry, traces, work, env=None, prefix=None, timeout=300):
    tf = os.path.join(work, "t_%s_%d.txt" % (entry, os.getpid()))
    traces_file(tf, traces)
    scratch = tempfile.mkdtemp(dir=work)
    e = dict(os.environ); e.update(env or {}); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=1"; e.setdefault("BSX_TIMEOUT", "10")
    e["OMP_NUM_THREADS"] = "4"
    try:
        r = sh((prefix or []) + [binary, entry, tf], cwd=scratch, env=e, timeout=timeout)
        out = r.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    shutil.rmtree(scratch, ignore_errors=True)
    res = {}
    for l in out.splitlines():
        if l.startswith("TRACE "):
            p = l.split(" "); res[int(p[1])] = (p[2] if len(p) > 2 else "", [x for x in p[3:] if x])
    return [res.get(i, ("noresult", [])) for i in range(len(traces))]

def load_findings():
    known = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m: known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known

def main():
    pid = sys.argv[1]; tiername = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if "--tier" in args: tiername = args[args.index("--tier") + 1]
    only = args[args.index("--entry") + 1] if "--entry" in args else None
    hfilter = args[args.index("--harness") + 1] if "--harness" in args else None
    keep = "--keep" in args; verbose = "-v" in args
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = 1 if tiername == "thorough" else 0
    t0 = time.time(); ck = C.CHECKS[pid]; ensure_engine()
    work = tempfile.mkdtemp(prefix="chk_%s_" % pid, dir=os.path.join(V, "build"))
    total_budget = ck.get("budget", (300, 2400))[tier]
    deadline = t0 + total_budget
    rc = 0
    try:
        rc = run(pid, ck, tier, tiername, seed, work, only, hfilter, verbose, t0, deadline)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, ck, tier, tiername, seed, work, only, hfilter, verbose, t0, deadline):
    hs = [h for h in ck["harness"] if not hfilter or hfilter in h]
    omp = ck.get("omp", False)
    rt = os.path.join(work, "rt.bc")
    r = sh(["clang++-18", "-std=c++17", "-O1", "-fno-builtin", "-emit-llvm", "-w", "-c", os.path.join(H, "rt", "runtime.cpp"), "-o", rt])
    if r.returncode: print(r.stdout); return 2
    strs = os.path.join(work, "strings.bc")
    r = sh(["clang++-18", "-std=c++17", "-O1", "-emit-llvm", "-w", "-c", os.path.join(H, "rt", "strings.cpp"), "-o", strs])
    if r.returncode: print(r.stdout); return 2
    ncpu = os.cpu_count() or 8
    ex = cf.ThreadPoolExecutor(max_workers=max(2, ncpu))
    def build_ir(h):
        src = os.path.join(H, h + ".cpp"); a = os.path.join(work, h + ".0.bc"); b = os.path.join(work, h + ".bc")
        r = sh(ir_cmd(src, a, tier, h in ck.get("omp_harness", []) or omp, ck.get("defs", [])))
        if r.returncode: return None, r.stdout
        r = sh(["llvm-link-18", a, rt, strs, "-o", b])
        return (b, "") if r.returncode == 0 else (None, r.stdout)
    def build_nat(h, san=""):
        out = os.path.join(work, h + (".asan" if san else ".nat"))
        r = sh(nat_cmd(os.path.join(H, h + ".cpp"), out, tier, True, ck.get("defs", []), san))
        return (out, "") if r.returncode == 0 else (None, r.stdout)
    irs = {h: ex.submit(build_ir, h) for h in hs}
    nats = {h: ex.submit(build_nat, h) for h in hs}
    known = load_findings()
    agg = dict(paths=0, pruned=0, decisions=0, queries=0, sat=0, unsat=0, unknown=0, solver_seconds=0.0, asserts=0, assert_queries=0, instr=0)
    entries = []; functions = {}; samples = []; validated = 0; mismatches = []; violations = []; unconfirmed = []; known_hit = {}; vacuous = []
    for k, h in enumerate(hs):
        b, err = irs[h].result()
        if not b: print("harness %s does not compile (bitcode):\n%s" % (h, err[:3000])); return 2
        left = max(20, deadline - time.time()); share = left / (len(hs) - k) * 1.5 if k + 1 < len(hs) else left
        outj = os.path.join(work, h + ".json")
        cmd = [BSX, b, "--out", outj, "--budget", "%.0f" % min(share, left), "--threads", str(ncpu), "--seed", str(seed), "--samples", os.environ.get("BSX_SAMPLES") or str(ck.get("samples", 6 if tier == 0 else 12)), "--filter", REPO + "/include",
               "--max-instr", str(ck.get("max_instr", 60000000))]
        if only: cmd += ["--entry", only]
        r = sh(cmd, timeout=left + 300)
        if not os.path.exists(outj):
            if only: continue
            print("engine failed on %s: %s" % (h, r.stdout[-2000:])); return 2
        J = json.load(open(outj))
        if J["error"]: print("engine error on %s: %s" % (h, J["error"])); return 2
        for key in ("queries", "sat", "unsat", "unknown"): agg[key] += J[key]
        agg["solver_seconds"] += J["solver_seconds"]
        for f in J["functions"]:
            functions.setdefault((f["file"].replace(REPO + "/", ""), f["line"]), f["name"])
        nat, nerr = nats[h].result()
        if not nat: print("harness %s does not compile (native):\n%s" % (h, nerr[:3000])); return 2
        asan = [None]
        def get_asan():
            if asan[0] is None:
                a, e = build_nat(h, "asan"); asan[0] = a or ""
            return asan[0]
        for e in J["entries"]:
            for key in ("paths", "pruned", "decisions", "asserts", "assert_queries", "instr"): agg[key] += e[key]
            ent = dict(name=h + "/" + e["name"], complete=e["complete"], paths=e["paths"], pruned=e["pruned"], decisions=e["decisions"], asserts=e["asserts"], assert_queries=e["assert_queries"], max_depth=e["maxdepth"], reach=e["reach"])
            for key in ("unsupported", "limit", "unknown", "pending"):
                if e[key]: ent[key] = e[key]
            if e["unsup"]: ent["unsupported_reasons"] = e["unsup"][:5]
            entries.append(ent)
            if not e["reach"].get("end") and not e["violations"]: vacuous.append(ent["name"])
            # validation of the encoding: completed paths replayed natively must observe the same values
            tr = e["traces"]
            if tr:
                res = run_native(nat, e["name"], [t["inputs"] for t in tr], work)
                for t, (stt, ob) in zip(tr, res):
                    if stt == "ok" and ob == t["obs"]: validated += 1
                    else: mismatches.append(dict(entry=ent["name"], inputs=t["inputs"], engine=t["obs"], native=[stt] + ob))
                samples.append(dict(entry=ent["name"], inputs=tr[0]["inputs"][:40], observed=tr[0]["obs"][:20]))
            for v in e["violations"]:
                v["entry"] = e["name"]; v["harness"] = h
                how = None
                if v["kind"] == "race": how = "engine: conflicting accesses by concurrent strands"
                st0 = run_native(nat, e["name"], [v["inputs"]], work)[0][0]
                if how is None and v["kind"] == "nontermination":
                    # must really not terminate: the native run is cut off by its alarm, twice, the second time after a minute
                    if st0 == "crash:signal14" and run_native(nat, e["name"], [v["inputs"]], work, env={"BSX_TIMEOUT": "60"})[0][0] == "crash:signal14": st0 = "crash:signal14"
                    elif st0 == "crash:signal14": st0 = "slow"
                if how is None and (st0.startswith("fail:") or st0.startswith("crash:") or st0.startswith("exception:")): how = "native build: " + st0
                if how is None and v["kind"] not in ("uninit", "nontermination"):
                    a = get_asan()
                    if a:
                        st1 = run_native(a, e["name"], [v["inputs"]], work, env={"BSX_TIMEOUT": "60"})[0][0]
                        if st1.startswith(("crash:", "fail:", "exception:")): how = "sanitizer build: " + st1
                if how is None and v["kind"] in ("uninit", "memory"):
                    st2 = run_native(nat, e["name"], [v["inputs"]], work, prefix=["valgrind", "-q", "--error-exitcode=9", "--track-origins=no"], env={"BSX_TIMEOUT": "120"})[0][0]
                    if st2.startswith("crash:exit9"): how = "valgrind: " + st2
                v["how"] = how
                if how is None: unconfirmed.append(v)
                elif v["known"]:
                    if (pid, v["known"]) in known: known_hit[v["known"]] = v
                    else: violations.append(v)
                else: violations.append(v)
        if verbose:
            for e in J["entries"]:
                print("  %-28s paths=%d pruned=%d dec=%d %s %s %s" % (e["name"], e["paths"], e["pruned"], e["decisions"], "complete" if e["complete"] else "INCOMPLETE unsup=%d limit=%d unk=%d pend=%d" % (e["unsupported"], e["limit"], e["unknown"], e["pending"]), dict(list(e["reach"].items())[:6]), e["unsup"][:3]))
            print("  [%s] wall %.1f load %.1f queries %d solver %.1fs" % (h, J["wall"], J["load"], J["queries"], J["solver_seconds"]))
    ex.shutdown(wait=False)
    wall = time.time() - t0
    rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
    shown = set(); n = 0
    for v in violations:
        key = (v["harness"], v["entry"], v["msg"])
        if key in shown: continue
        shown.add(key); n += 1
        rp = os.path.join(rd, "%s_%d.json" % (pid, n))
        json.dump(dict(property=pid, harness=v["harness"], entry=v["entry"], kind=v["kind"], message=v["msg"], where=v["where"], inputs=v["inputs"], reproduced=v["how"],
                       replay="python3 %s/lib/replay.py %s" % (V, rp)), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("   entry %s/%s: %s: %s   [%s]" % (v["harness"], v["entry"], v["kind"], v["msg"], v["how"]))
        print("   inputs: " + " ".join("%s=%d" % (a, b) for a, b in v["inputs"][:60]))
        print("   at: " + v["where"][:600])
    for kid, v in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, kid)]))
    for v in unconfirmed: print("note: engine report not reproduced on the native build (not counted): %s/%s %s: %s inputs %s at %s" % (v["harness"], v["entry"], v["kind"], v["msg"], v["inputs"][:40], v["where"][:300]))
    for m in mismatches[:5]: print("note: engine/native disagreement on a sampled path: %s" % json.dumps(m)[:600])
    for x in vacuous: print("note: no path of %s reached its end" % x)
    inc = [e["name"] for e in entries if not e["complete"]]
    cov = dict(states=agg["paths"] + agg["pruned"], transitions=agg["decisions"], traces_validated_against_impl=validated, samples=samples[:12],
               exhaustive=not inc and not unconfirmed, technique="symbolic execution of LLVM bitcode of the real headers; z3 decides every branch and assertion",
               paths_completed=agg["paths"], paths_pruned_by_assumptions=agg["pruned"], symbolic_decisions=agg["decisions"],
               solver=dict(queries=agg["queries"], sat=agg["sat"], unsat=agg["unsat"], unknown=agg["unknown"], seconds=round(agg["solver_seconds"], 2)),
               assertions_evaluated=agg["asserts"], assertions_decided_by_solver_query=agg["assert_queries"], instructions_interpreted=agg["instr"],
               bounds=ck["bounds"][tier] if isinstance(ck["bounds"], (list, tuple)) else ck["bounds"], outside_bounds=ck.get("outside", "larger sizes and value ranges than stated in bounds"),
               entries=entries, incomplete_entries=inc, engine_native_disagreements=len(mismatches), unconfirmed_reports=len(unconfirmed), vacuous_entries=vacuous,
               functions_encoded=sorted("%s:%d %s" % (f, l, nm) for (f, l), nm in functions.items())[:400], functions_encoded_count=len(functions))
    ev = dict(property=pid, tier=tiername, seed=seed, level="model_checking", coverage=cov, assumptions=ck.get("assumptions", []) + C.COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=n)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only and not hfilter: json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: paths %d, decisions %d, queries %d (%.1f s solver), assertions %d, native-validated traces %d, %s, %.1f s" % (pid, tiername, agg["paths"], agg["decisions"], agg["queries"], agg["solver_seconds"], agg["asserts"], validated, "complete within bounds" if not inc else "INCOMPLETE: " + ",".join(inc[:6]), wall))
    return 1 if n else 0

main()
