"""Driver of the solver-based checks: compile a harness with the real headers of /repo to LLVM IR, execute it
symbolically, validate sample paths natively, replay every counterexample, write the evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FLAGS = subprocess.run(["bash", "-c", f". {VERIF}/rt/flags.sh; echo $SX_CXXFLAGS"], capture_output=True, text=True).stdout.split()
CLANG, OPT, LINK = "clang++-18", "opt-18", "llvm-link-18"


class Run:
    def __init__(self, src, name=None, defs=None, tdefs=None, opts=None, topts=None, covers=(), labels=(), native=True,
                 shim=(), target=None, bounds="", tbounds=None, thorough_only=False, max_time=400, tmax_time=3000, jobs=1,
                 tjobs=8, expect=None):
        self.src, self.name = src, name or os.path.splitext(src)[0]
        self.defs, self.tdefs = dict(defs or {}), dict(tdefs or {})
        self.opts, self.topts = list(opts or []), topts
        self.covers, self.labels, self.native, self.shim, self.target = list(covers), list(labels), native, list(shim), target
        self.bounds, self.tbounds, self.thorough_only = bounds, tbounds, thorough_only
        self.max_time, self.tmax_time, self.jobs, self.tjobs = max_time, tmax_time, jobs, tjobs


class Prop:
    def __init__(self, pid, runs, note, assumptions=(), outside=""):
        self.pid, self.runs, self.note, self.assumptions, self.outside = pid, runs, note, list(assumptions), outside


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


class Inconclusive(Exception):
    pass


class Stopped(Inconclusive):
    def __init__(self):
        super().__init__("ended early because another run of this check found a violation")


class NotCompiling(Inconclusive):
    """The compiler works (the runtime was built with it) but rejects this use of the current headers."""


def ensure_built():
    r = sh(["bash", f"{VERIF}/setup.sh"])
    if r.returncode:
        raise Inconclusive("setup failed: " + (r.stdout + r.stderr)[-2000:])


def incs(run):
    return [f"-I{VERIF}/shim/{s}" for s in run.shim] + [f"-I{VERIF}/rt", f"-I{VERIF}/harness", f"-I{REPO}/include"]


def defs_of(run, tier):
    d = dict(run.defs)
    if tier == "thorough":
        d.update(run.tdefs)
    return [f"-D{k}={v}" for k, v in d.items()]


def compile_ir(run, tier, tmp):
    b = os.path.join(tmp, run.name)
    tgt = []
    if run.target:    # another CPU: this machine's library headers, the other target's code generation
        tgt = [f"--target={run.target}", "-D__x86_64__", "-D__builtin_ia32_pause()=((void)0)", "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13",
               "-isystem", "/usr/include/x86_64-linux-gnu"]
    rt = f"{BUILD}/rt.bc"
    cmd = [CLANG, *FLAGS, *tgt, *incs(run), *defs_of(run, tier), "-emit-llvm", "-c", f"{VERIF}/harness/{run.src}", "-o", b + ".0.bc"]
    r = sh(cmd)
    if r.returncode:
        raise NotCompiling(f"{run.name}: the code, used as the property describes, does not compile:\n" + r.stderr[:3000])
    r = sh([OPT, "-passes=sroa,simplifycfg", b + ".0.bc", "-o", b + ".1.bc"])
    if r.returncode:
        raise Inconclusive(f"{run.name}: opt failed: " + r.stderr[:1000])
    if run.target:
            return b + ".1.bc"
    r = sh([LINK, "--only-needed", b + ".1.bc", rt, "-o", b + ".bc"])
    if r.returncode:
        raise Inconclusive(f"{run.name}: llvm-link failed: " + r.stderr[:1000])
    return b + ".bc"


def compile_native(run, tier, tmp):
    exe = os.path.join(tmp, run.name + ".exe")
    cmd = [CLANG, "-std=c++20", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,signed-integer-overflow",
           "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", *incs(Run("x", shim=[s for s in run.shim if s != "stream"])),
           *defs_of(run, tier), "-pthread", f"{VERIF}/harness/{run.src}", f"{BUILD}/native_rt.o", "-o", exe]
    r = sh(cmd)
    return exe if r.returncode == 0 else None, r.stderr[:1500]


def native_run(exe, model, tmp, tag, timeout=20):
    vf = os.path.join(tmp, tag + ".values")
    with open(vf, "w") as f:
        for k, v in model.items():
            if not k.startswith(("uninit", "<uninit")):
                f.write(f"{k} {v}\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
    try:
        r = subprocess.run([exe, vf], capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "trace": None, "assert": None, "out": ""}
    tr = re.search(r"^TRACE (\d+)", r.stdout, re.M)
    a = re.search(r"^ASSERT (.*)$", r.stdout, re.M)
    return {"rc": r.returncode, "trace": tr.group(1) if tr else None, "assert": a.group(1) if a else None,
            "out": (r.stdout[-600:] + r.stderr[:1500])}


def run_engine(cmd, limit, stop):
    """Runs the executor; once another run of the check has found a violation, it gets a little longer and is then ended."""
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    t0 = time.time()
    while True:
        try:
            _, err = p.communicate(timeout=0.5)
            return p.returncode, err
        except subprocess.TimeoutExpired:
            late = time.time() - t0 > limit
            if late or (stop and stop.get("at") and time.time() - stop["at"] > 20):
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                if late:
                    raise subprocess.TimeoutExpired(cmd, limit)
                raise Stopped()


def symx(run, tier, bc, tmp, seed, extra=(), tag="sx", stop=None):
    out = os.path.join(tmp, f"{run.name}.{tag}.json")
    thorough = tier == "thorough"
    opts = run.topts if thorough and run.topts is not None else run.opts
    mt = run.tmax_time if thorough else run.max_time
    jobs = run.tjobs if thorough else run.jobs
    if extra:
        jobs = 1
    cmd = ["bash", "-c", "ulimit -s 1000000; exec \"$@\"", "symx", f"{BUILD}/symx", bc, "--out", out, "--max-time", str(mt), "--jobs", str(jobs), "--seed", str(seed),
           "--audit", "20000" if thorough else "150", *opts, *extra]
    rc, err = run_engine(cmd, mt + 120, stop)
    if not os.path.exists(out):
        raise Inconclusive(f"{run.name}: the executor died (rc {rc}): {err[-1500:]}")
    with open(out) as f:
        d = json.load(f)
    if isinstance(d, dict):
        raise Inconclusive(f"{run.name}: not encodable: {d.get('error')}")
    return d


def merge(parts):
    m = {"violations": [], "covers": {}, "reached": {}, "discharged": {}, "functions": set(), "lines": {}, "stats": {}, "samples": [],
         "incomplete": []}
    seen = set()
    for p in parts:
        for v in p["violations"]:
            k = (v["kind"], v["label"], v["where"].split(" <- ")[0])
            if k not in seen:
                seen.add(k)
                m["violations"].append(v)
        if p["status"] == "incomplete" or p["why"]:
            m["incomplete"].append(p["why"])
        for key in ("covers", "reached", "discharged"):
            for k, v in p[key].items():
                m[key][k] = m[key].get(k, 0) + v
        m["functions"] |= set(p["functions"])
        for k, v in p["lines"].items():
            m["lines"].setdefault(k, set()).update(v)
        for k, v in p["stats"].items():
            if k in ("seconds", "max_query_seconds", "max_depth"):
                m["stats"][k] = max(m["stats"].get(k, 0), v)
            else:
                m["stats"][k] = m["stats"].get(k, 0) + v
        m["samples"] += p["samples"]
    return m


def confirm(run, tier, bc, exe, v, tmp, seed, n):
    """Replays a counterexample: concretely in the executor, and natively when no schedule is involved."""
    vf = os.path.join(tmp, f"cex{n}.values")
    with open(vf, "w") as f:
        for k, x in v["model"].items():
            f.write(f"{k} {x}\n")
    extra = ["--values", vf, "--samples", "0"]
    if v["sched"]:
        with open(vf + ".sched", "w") as f:
            f.write(" ".join(map(str, v["sched"])))
        extra += ["--sched", "@" + vf + ".sched"]
    parts = symx(run, tier, bc, tmp, seed, extra, tag=f"replay{n}")
    got = [x for p in parts for x in p["violations"]]
    same = [x for x in got if x["kind"] == v["kind"] and x["label"] == v["label"]]
    res = {"concrete_execution": bool(same), "native": None}
    if not v["threads"] and exe:
        r = native_run(exe, v["model"], tmp, f"cex{n}n")
        res["native"] = r
        hit = r["rc"] not in (0, 43, 44) and (v["kind"] != "assert" or r["assert"] is not None or r["rc"] != 42)
        res["native_confirms"] = hit
    return res


def check(prop, tier, seed):
    t0 = time.time()
    ensure_built()
    runs = [r for r in prop.runs if tier == "thorough" or not r.thorough_only]
    tmp = tempfile.mkdtemp(prefix=f"sx_{prop.pid}_")
    try:
        return _check(prop, tier, seed, runs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cross_check(dump, limit, seconds=240):
    """Re-decides dumped queries with two other solvers."""
    import random
    fs = sorted(os.path.join(dump, f) for f in os.listdir(dump) if f.endswith(".smt2"))
    random.Random(1).shuffle(fs)
    fs = fs[:limit]
    res = {"queries": 0, "agree": 0, "undecided": 0, "disagree": []}
    end = time.time() + seconds

    def one(f):
        if time.time() > end:
            return None
        want = "unsat" if ".unsat." in f else "sat"
        out = []
        for cmd in (["z3-new", "-T:20", f], ["cvc5", "--tlimit=20000", f]):
            r = sh(cmd)
            a = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
            if "(error" in r.stdout or "(error" in r.stderr:
                a = "unknown"
            out.append(a)
        return want, out, os.path.basename(f)

    with ThreadPoolExecutor(8) as ex:
        for x in ex.map(one, fs):
            if x is None:
                continue
            want, out, f = x
            res["queries"] += 1
            if any(o in ("sat", "unsat") and o != want for o in out):
                res["disagree"].append([f, want, out])
            elif all(o == want for o in out):
                res["agree"] += 1
            else:
                res["undecided"] += 1
    return res


def _check(prop, tier, seed, runs, tmp, t0):
    problems, violations, evid = [], [], []
    totals = {"paths": 0, "instr": 0, "queries": 0, "solver_s": 0.0, "asserts": 0, "asserts_solver": 0, "native_ok": 0, "replayed": 0}
    funcs, lines, samples_out, discharged, labels_reached = set(), {}, [], {}, {}

    known = load_known(prop.pid)
    stop = {}

    def go(run):
        try:
            d = os.path.join(tmp, run.name)
            os.makedirs(d)
            nat = None
            with ThreadPoolExecutor(1) as ex:
                if run.native:
                    nat = ex.submit(compile_native, run, tier, d)
                bc = compile_ir(run, tier, d)
                extra = []
                dump = None
                if tier == "thorough":
                    dump = os.path.join(d, "dump")
                    os.makedirs(dump)
                    extra = []
                t1 = time.time()
                if dump:
                    run2 = run
                    opts = (run.topts if run.topts is not None else run.opts) + ["--dump", dump, "--dump-max", "60"]
                    saved, run.topts = run.topts, opts
                    try:
                        parts = symx(run2, tier, bc, d, seed)
                    finally:
                        run.topts = saved
                else:
                    parts = symx(run, tier, bc, d, seed, stop=stop)
                m = merge(parts)
                if any(not is_known(known, run, v) for v in m["violations"]) and not stop.get("at"):
                    stop["at"] = time.time()
                m["engine_wall"] = time.time() - t1
                exe, err = nat.result() if nat else (None, "")
                m["native_error"] = err if nat and not exe else None
                m["dump"] = dump
                return run, bc, exe, m, d, None
        except NotCompiling as e:
            return run, None, None, None, None, e
        except Inconclusive as e:
            return run, None, None, None, None, str(e)
        except subprocess.TimeoutExpired as e:
            return run, None, None, None, None, f"{run.name}: time limit"

    seq = tier == "thorough"
    with ThreadPoolExecutor(1 if seq else 8) as ex:
        results = list(ex.map(go, runs))

    cross = []
    for run, bc, exe, m, d, err in results:
        if isinstance(err, NotCompiling):
            violations.append((run, {"kind": "does-not-compile", "label": "the operations the property is about compile", "detail": str(err), "where": "compiler",
                                     "model": {}, "notes": [], "sched": [], "threads": False, "uninit": False, "confirmation": None, "run": run.name}))
            continue
        if err:
            problems.append(err)
            continue
        st = m["stats"]
        totals["paths"] += st["paths"]
        totals["instr"] += st["instructions"]
        totals["queries"] += st["queries"]
        totals["solver_s"] += st["solver_seconds"]
        totals["asserts"] += st["asserts"]
        totals["asserts_solver"] += st["asserts_by_solver"]
        funcs |= m["functions"]
        for k, v in m["lines"].items():
            lines.setdefault(k, set()).update(v)
        for k, v in m["reached"].items():
            labels_reached[k] = labels_reached.get(k, 0) + v
        for k, v in m["discharged"].items():
            discharged[k] = discharged.get(k, 0) + v
        # violations
        for n, v in enumerate(m["violations"][:4]):
            c = confirm(run, tier, bc, exe, v, d, seed, n)
            totals["replayed"] += 1
            v["confirmation"] = c
            v["run"] = run.name
            if not c["concrete_execution"]:
                problems.append(f"{run.name}: counterexample for '{v['label']}' does not reproduce when re-executed concretely")
            elif not v["threads"] and exe and not v["uninit"] and v["kind"] in ("assert", "uncaught-exception", "hang", "library-assertion", "terminate") \
                    and not c.get("native_confirms"):
                problems.append(f"{run.name}: counterexample for '{v['label']}' ({v['kind']}) does not reproduce natively: {c['native']['rc']} {c['native']['out'][-300:]} MODEL {v['model']}")
            else:
                violations.append((run, v))
        if m["incomplete"] and not m["violations"]:
            problems.append(f"{run.name}: exploration incomplete: {m['incomplete'][0]}")
        if not m["violations"]:
            for c in run.covers:
                if not m["covers"].get(c):
                    problems.append(f"{run.name}: the situation '{c}' was never reached")
            if not m["reached"]:
                problems.append(f"{run.name}: no assertion was reached")
            for l in run.labels:
                if not m["reached"].get(l):
                    problems.append(f"{run.name}: the assertion '{l}' was never reached")
        # native validation of sample paths
        nat_ok, nat_n = 0, 0
        if run.native and not exe:
            problems.append(f"{run.name}: the native build of the harness fails: {m['native_error']}")
        if exe and not m["violations"]:
            todo = m["samples"][:4 if tier == "quick" else 24]
            with ThreadPoolExecutor(4) as ex:
                for s, r in zip(todo, ex.map(lambda a: native_run(exe, a[1]["model"], d, f"s{a[0]}"), enumerate(todo))):
                    nat_n += 1
                    if r["rc"] == 0 and (s["threads"] or r["trace"] == s["trace"]):
                        nat_ok += 1
                    elif r["rc"] == "timeout" and s["threads"]:
                        pass
                    else:
                        problems.append(f"{run.name}: a completed symbolic path behaves differently natively: rc={r['rc']} trace {r['trace']} vs {s['trace']} inputs {s['model']} {r['out'][-400:]}")
        totals["native_ok"] += nat_ok
        for s in m["samples"][:2]:
            mm = dict(list(s["model"].items())[:24])
            samples_out.append({"run": run.name, "inputs_of_one_completed_path": mm})
        if m.get("dump"):
            x = cross_check(m["dump"], 60)
            cross.append({"run": run.name, **{k: (v if k != "disagree" else len(v)) for k, v in x.items()}})
            for f, want, out in x["disagree"]:
                problems.append(f"{run.name}: solvers disagree on {f}: z3 {want}, z3-new/cvc5 {out}")
            shutil.rmtree(m["dump"], ignore_errors=True)
        evid.append({"run": run.name, "bounds": (run.tbounds if tier == "thorough" and run.tbounds else run.bounds),
                     "defines": {**run.defs, **(run.tdefs if tier == "thorough" else {})}, "paths": st["paths"],
                     "paths_cut_by_assumptions": st["infeasible_by_assumption"], "instructions": st["instructions"],
                     "queries": st["queries"], "sat": st["sat"], "unsat": st["unsat"], "unknown": st["unknown"],
                     "cache_hits": st["cache_hits"], "simplifications": st["rewrites"], "simplifications_confirmed_by_solver": st["rewrites_checked"], "solver_seconds": round(st["solver_seconds"], 3),
                     "slowest_query_s": round(st["max_query_seconds"], 3), "assertions_evaluated": st["asserts"],
                     "assertions_needing_solver": st["asserts_by_solver"], "schedule_points": st["sched_points"],
                     "covers": m["covers"], "complete": not m["incomplete"], "engine_wall_s": round(m["engine_wall"], 2),
                     "sample_paths_run_natively": nat_n, "sample_paths_agreeing": nat_ok})

    new, shown = [], []
    for run, v in violations:
        k = is_known(known, run, v)
        (shown if k else new).append((run, v, k))
    for run, v, k in shown:
        print(f"KNOWN-FINDING: property={prop.pid} {k['what']}")
    replays = []
    rd = os.path.join(VERIF, "replays")
    for i, (run, v, _) in enumerate(new):
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{prop.pid}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop.pid, "run": run.name, "harness": run.src, "defines": defs_of(run, tier), "kind": v["kind"],
                       "label": v["label"], "detail": v["detail"], "where": v["where"], "inputs": v["model"], "notes": v["notes"],
                       "schedule": v["sched"], "confirmation": v["confirmation"]}, f, indent=1)
        replays.append(path)
        print(f"  {v['kind']}: {v['label']} {v['detail']}\n    at {v['where'][:600]}\n    inputs {json.dumps(v['model'])[:800]}\n    notes {json.dumps(v['notes'])[:800]}")
        print(f"VIOLATION property={prop.pid} replay={path}")
    if os.environ.get("SX_LINES"):
        with open(os.path.join(os.environ["SX_LINES"], prop.pid + ".json"), "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    nlab = len(labels_reached)
    fl = sorted(funcs)
    ev = {"property": prop.pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": totals["paths"], "transitions": totals["instr"], "traces_validated_against_impl": totals["native_ok"],
              "samples": samples_out[:8] or ["no path completed"],
              "queries_discharged": totals["queries"], "solver_seconds": round(totals["solver_s"], 3),
              "assertions_evaluated": totals["asserts"], "assertions_decided_by_solver": totals["asserts_solver"],
              "assertion_labels": {k: {"reached": v, "valid_by_solver_query": discharged.get(k, 0)} for k, v in sorted(labels_reached.items())},
              "counterexamples_replayed": totals["replayed"],
              "functions_encoded": [f[:160] for f in fl[:120]], "functions_encoded_count": len(fl),
              "repo_lines_executed": {k: len(v) for k, v in sorted(lines.items())},
              "runs": evid, "second_solver_cross_check": cross, "outside_bounds": prop.outside,
              "rule": "states = complete symbolic paths (each stands for all inputs satisfying its path condition), transitions = LLVM instructions executed symbolically"},
          "assumptions": prop.assumptions + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if problems:
        ev["coverage"]["inconclusive"] = [p[:500] for p in problems[:10]]
    if len(json.dumps(ev)) > 60000:
        ev["coverage"]["functions_encoded"] = ev["coverage"]["functions_encoded"][:40]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop.pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        return 1
    if problems:
        for p in problems:
            print("INCONCLUSIVE:", p[:3000])
        return 2
    print(f"{prop.pid}: held on {totals['paths']} symbolic paths, {totals['queries']} solver queries ({totals['solver_s']:.2f} s), "
          f"{nlab} assertions, {totals['native_ok']} paths replayed natively, {time.time()-t0:.1f} s")
    return 0


COMMON_ASSUMPTIONS = [
    "clang 18's lowering of the headers to LLVM IR (-O1 front end, SROA and SimplifyCFG only) and libstdc++ 13's headers are executed, not modelled",
    "out-of-line libstdc++/libc functions are the models of rt/rt.cpp (list hooks, tree linking, hashing, threads, exceptions)",
    "heap allocation outside the library under test never fails",
    "Z3 4.8.12 answers correctly (thorough tier re-decides a sample of its queries with a newer Z3 and cvc5)",
]


def is_known(known, run, v):
    return next((k for k in known if k["run"] == run.name and k["kind"] == v["kind"] and k["label"] == v["label"]), None)


def load_known(pid):
    out = []
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                k = json.loads(l[len("known: "):])
                if k["property"] == pid:
                    out.append(k)
    return out
