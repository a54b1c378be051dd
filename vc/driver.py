"""Check driver: compiles the harness units of a property against /repo's current tree, generates and
discharges the verification conditions of every function under contract, and decides the outcome.

 exit 0  every obligation discharged; or the undischarged ones are only undecided (solver timeout or
         construct outside the generator's reach) and the bounded stand-in for those functions passed
         (reported as bounded in the evidence, never counted as discharged)
 exit 1  VIOLATION: a failing input was reproduced on the real code, or an obligation is refuted
         (then the line ends with no-failing-input-found)
"""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "vc"), HERE]
import build          # noqa: E402


class Task:
    def __init__(self, name, fn, spec, dom="hyb", deadline=int(os.environ.get("VC_DEADLINE", "150")), timeout_ms=20000, native=None, bounded=None,
                 check_termination=True, opts=None, known=None, alts=()):
        self.name, self.fn, self.spec, self.dom = name, fn, spec, dom
        self.deadline, self.timeout_ms = deadline, timeout_ms
        self.native = native        # (exe, [args]) prefix for the native oracle
        self.bounded = bounded      # callable -> (spec, unroll)
        self.check_termination = check_termination
        self.opts = opts or {}
        # known: tag of the known finding (known_findings.txt) that `spec` describes; alts: further contracts
        # [(tag or None, spec)] of which one has to be proved if `spec` is not
        self.known, self.alts = known, list(alts)


class Unit:
    def __init__(self, name, source, public, tasks, noinline=(), extra=()):
        self.name, self.source, self.public, self.tasks = name, source, public, tasks
        self.noinline, self.extra = noinline, extra
        self.mod = None
        self.err = None


UNITS = []
KINDS_TOTAL = ("load-in-bounds",)


def make_dom(n):
    import dom
    return {"hyb": dom.HybDom, "bv": dom.BVDom, "int": dom.IntDom, "lin": dom.LinDom}[n]()


def each_forked(ctx, jobs, fn, stop, n=8):
    """(job, result) for every job, each in a process of its own: results do not depend on which jobs ran before
    in the same process.  result None: the process died.  stop(): enough, the remaining jobs are not started"""
    def child(w, job):
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        try:
            w.send(fn(job))
        finally:
            w.close()
            os._exit(0)
    todo, active = list(reversed(jobs)), {}
    while todo or active:
        while todo and len(active) < n and not stop():
            r, w = ctx.Pipe(False)
            job = todo.pop()
            p = ctx.Process(target=child, args=(w, job))
            p.start()
            w.close()
            active[r] = (p, job)
        if not active:
            return
        for r in mp.connection.wait(list(active)):
            p, job = active.pop(r)
            try:
                x = r.recv()
            except (EOFError, OSError):
                x = None
            r.close()
            p.join()
            yield job, x


def run_task(ui, ti, scale=1.0, tend=None):
    """worker: one function under its contract"""
    t = UNITS[ui].tasks[ti]
    res = run_spec(ui, ti, t.spec, scale, tend)
    if res["refuted"] and res["undecided"]:
        # invariants may be missing only because the solver gave up: again with more time and another seed,
        # and if it gives up again, the failed obligations count as undecided
        r = run_spec(ui, ti, t.spec, scale, tend, effort=4)
        if not (r["refuted"] and r["undecided"]):
            res = r
        else:
            res["refuted"] = False
            for o in res["obls"]:
                if o["status"] == "refuted":
                    o["status"] = "unknown"
    res["known"] = t.known if res["ok"] else None
    if not res["ok"]:
        for tag, sp in t.alts:
            r = run_spec(ui, ti, sp, scale, tend)
            if r["ok"]:
                r["known"] = tag
                return r
    return res


def run_spec(ui, ti, spec, scale, tend=None, effort=1):
    """symbolic execution of one function under its contract"""
    import exec as E
    u = UNITS[ui]
    t = u.tasks[ti]
    t0 = time.time()
    res = dict(unit=u.name, task=t.name, fn=t.fn, ui=ui, ti=ti)
    ex = E.Exec(u.mod, make_dom(t.dom), timeout_ms=t.timeout_ms * effort)
    if effort > 1:
        ex.solver.set("random_seed", 7)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    try:
        sp = spec()
        for k, v in t.opts.items():
            setattr(ex, k, v)
        ex.spec = sp
        ex.want_termination = t.check_termination
        st = E.State()
        ex.deadline = min(time.time() + t.deadline * scale, tend or 1e18)
        if u.mod.funcs.get(t.fn) is None:
            raise E.Unsupported("function %s not found in the compiled unit" % t.fn)
        sp.setup(ex, st, t.fn)
        ex.explore(st)
        res["end"] = "complete"
    except E.Stop as e:
        res["end"] = "stopped: %s" % e
    except E.Unsupported as e:
        res["end"] = "unsupported: %s" % e
    except MemoryError:
        res["end"] = "stopped: memory"
    except RecursionError:
        res["end"] = "unsupported: recursion"
    except Exception as e:      # noqa  (generator shortcoming on unexpected code)
        res["end"] = "unsupported: internal %s %s" % (e.__class__.__name__, str(e)[:300])
        res["tb"] = traceback.format_exc()[-3500:]
    obs = [dict(kind=o.kind, where=o.where, msg=o.msg, status=o.status, count=o.count, time=round(o.time, 4))
           for o in ex.obls.values()]
    if res["end"] == "complete":
        for k, ok in ex.reached.items():
            obs.append(dict(kind="reachability", where=k, msg="the cut point is reachable (contract not vacuous)",
                            status="discharged" if ok else "unknown", count=1, time=0.0))
        if not ex.reached.get("return") and not t.opts.get("noreturn_ok"):
            obs.append(dict(kind="reachability", where="return", msg="no return reached", status="unknown", count=1, time=0.0))
    res["obls"] = obs
    res["failures"] = [{k: v for k, v in f.items() if k != "cond"} | {"cond": f.get("cond", "")[:600]} for f in ex.failures[:8]]
    res["stats"] = dict(queries=ex.stats["queries"], solver_s=round(ex.stats["solver_s"], 3), paths=ex.stats["paths"],
                        loops=ex.stats["loops"], inv=ex.stats["cands_kept"], contract_calls=ex.stats["contract_calls"],
                        inlined=sorted(ex.stats["inlined"])[:60])
    res["cuts"] = ex.cut_summary[:12]
    res["wall"] = round(time.time() - t0, 3)
    res["ok"] = res["end"] == "complete" and all(o["status"] == "discharged" for o in obs) and len(obs) > 0
    res["undecided"] = ex.undecided
    res["refuted"] = any(o["status"] == "refuted" for o in obs)
    return res


def run_bounded(ui, ti, secs):
    """bounded stand-in: loops unrolled, inputs bounded; a failure here is a concrete input"""
    import exec as E
    u = UNITS[ui]
    t = u.tasks[ti]
    out = dict(ui=ui, ti=ti, models=[], end=None)
    try:
        sp, unroll = t.bounded()
        ex = E.Exec(u.mod, make_dom(t.dom), timeout_ms=t.timeout_ms)
        for k, v in t.opts.items():
            setattr(ex, k, v)
        ex.spec = sp
        ex.force_unroll = unroll
        st = E.State()
        ex.deadline = time.time() + secs
        sp.setup(ex, st, t.fn)
        ex.explore(st)
        out["end"] = "complete"
    except Exception as e:   # noqa
        out["end"] = "%s %s" % (e.__class__.__name__, e)
    out["models"] = [f.get("model") for f in ex.failures if f.get("model")]
    out["fails"] = [(f["kind"], f["where"], f["msg"]) for f in ex.failures]
    return out


def compile_unit(u):
    try:
        u.mod = build.compile_ir(u.source, u.name, u.public, u.noinline, u.extra)
    except build.BuildError as e:
        u.err = str(e)
    return u


# ------------------------------------------------------------------ native oracle
SAN = ["-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr",
       "-fno-sanitize-recover=all", "-w"]


def native_build(src):
    src, *defs = src.split("|")         # "file.cpp|-DX=1|-DY"
    exe = os.path.join(build.work_dir(), "nat_" + re.sub(r"\W+", "_", os.path.basename(src).replace(".cpp", "") + "".join(defs)))
    if not os.path.exists(exe):
        build.sh(["clang++"] + SAN + defs + ["-I", build.REPO + "/include", "-I", HERE + "/native", os.path.join(HERE, "native", src), "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
    return exe


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")


def native_run(exe, args, timeout):
    """-> (failed, text)"""
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=NENV, cwd=build.work_dir())
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return (b"HANG" in o), (o.decode(errors="replace") if isinstance(o, bytes) else o)
    m = re.search(r"^FAIL .*$", out, re.M)
    if m:
        extra = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*)", out)
        return True, m.group(0) + ((" [" + extra.group(1) + "]") if extra else "")
    if rc not in (0,):
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*)", out)
        if m or rc < 0:
            return True, "FAIL %s: %s" % (" ".join(args), m.group(1) if m else "crash rc=%d" % rc)
        return False, "native oracle error rc=%d %s" % (rc, out[-300:])
    return False, out[-300:]


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    own = "VERIF_WORK" not in os.environ
    if own:
        os.environ["VERIF_WORK"] = tempfile.mkdtemp(prefix="strfvc.")
    try:
        return _main(pid, tier, seed, t0, only, verbose)
    finally:
        if own:
            shutil.rmtree(os.environ["VERIF_WORK"], ignore_errors=True)


def _main(pid, tier, seed, t0, only, verbose):
    P = importlib.import_module("props." + pid.lower())
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    units = P.units(tier)
    if only:
        for u in units:
            u.tasks = [t for t in u.tasks if re.search(only, t.name)]
        units = [u for u in units if u.tasks]
    UNITS[:] = units
    with cf.ThreadPoolExecutor(8) as tp:
        list(tp.map(compile_unit, units))
    t_build = time.time() - t0
    results = []
    errs = [u for u in units if u.err]
    if errs:
        # the harness does not compile against this tree
        print("BUILD-ERROR property=%s unit=%s" % (pid, errs[0].name))
        print(errs[0].err[-3000:])
        return 3
    jobs = [(ui, ti) for ui, u in enumerate(units) for ti in range(len(u.tasks))]
    jobs.sort(key=lambda j: -units[j[0]].tasks[j[1]].opts.get("weight", 1) - units[j[0]].tasks[j[1]].deadline)
    ctx = mp.get_context("fork")
    scale = 3.0 if tier == "thorough" else 1.0
    tend = t0 + (480 if tier != "thorough" else 5400)
    nbad = 0
    for (ui, ti), r in each_forked(ctx, jobs, lambda j: run_task(j[0], j[1], scale, tend), lambda: nbad >= 40):
            if r is None:    # worker died
                r = dict(unit=units[ui].name, task=units[ui].tasks[ti].name, fn=units[ui].tasks[ti].fn, ui=ui, ti=ti,
                         end="stopped: worker died", obls=[], failures=[], stats={}, cuts=[], wall=0, ok=False, refuted=False)
            results.append(r)
            nbad += bool(r["refuted"])
            if verbose:
                print("%-40s %s %.1fs %s obls=%d bad=%d paths=%s" % (r["task"], "ok" if r["ok"] else "NOT-OK", r["wall"], r["end"],
                      len(r["obls"]), sum(o["status"] != "discharged" for o in r["obls"]), r["stats"].get("paths")), flush=True)
                if not r["ok"]:
                    for o in r["obls"]:
                        if o["status"] != "discharged":
                            print("     ", o["status"], o["kind"], o["where"], o["msg"])
                    for fl in r["failures"][:3]:
                        print("        model:", str(fl.get("model"))[:600])
                    if r.get("tb"):
                        print(r["tb"])
    results.sort(key=lambda r: (r["unit"], r["task"]))
    t_proof = time.time() - t0

    # vacuity: the functions expected under contract must all be there
    nobl = sum(len(r["obls"]) for r in results)
    ndis = sum(sum(o["status"] == "discharged" for o in r["obls"]) for r in results)
    bad = [r for r in results if not r["ok"]]
    violations = []
    bounded_info = []
    fatal = None
    if bad:
        violations, bounded_info = decide_bad(P, pid, units, bad, tier, seed, t0)
    extra_cov = {}
    known = {}
    listed = known_findings(pid)
    for r in results:
        if r.get("known"):
            known.setdefault(r["known"], []).append(r["task"])
    for tag, fns in known.items():
        if tag in listed:
            print("KNOWN-FINDING: property=%s [%s] %s" % (pid, tag, listed[tag]))
        else:
            violations.append(dict(property=pid, function=fns[0], input=None, summary="deviation [%s] is not a listed known finding" % tag))
    if hasattr(P, "extra"):
        # property-specific additional obligations decided outside the executor (e.g. table lemmas)
        ev = P.extra(tier)
        nobl += ev.get("obligations", 0)
        ndis += ev.get("discharged", 0)
        extra_cov = ev.get("coverage", {})
        violations += ev.get("violations", [])
    by_kind = {}
    for r in results:
        for o in r["obls"]:
            k = by_kind.setdefault(o["kind"], dict(obligations=0, discharged=0, instances=0))
            k["obligations"] += 1
            k["discharged"] += o["status"] == "discharged"
            k["instances"] += o["count"]
    import z3
    cov = dict(
        obligations=nobl, discharged=ndis,
        checker_cmd="python3-vt /verif/check.py %s --tier %s" % (pid, tier),
        trusted_base=BASE_TRUST + list(getattr(P, "TRUST", [])),
        functions_under_contract=len({(r["unit"], r["fn"]) for r in results}), proof_tasks=len(results),
        functions=[dict(function=r["task"], outcome="proved" if r["ok"] else ("refuted" if r["refuted"] else "undecided"),
                        end=r["end"], obligations=len(r["obls"]), paths=r["stats"].get("paths"), loops=r["stats"].get("loops"),
                        invariants=r["stats"].get("inv"), wall_s=r["wall"]) for r in results],
        obligations_by_kind=by_kind,
        backend="z3 %s (python bindings), domain per function: bit-vectors / integers with explicit wrap" % z3.get_version_string(),
        solver_s=round(sum(r["stats"].get("solver_s", 0) for r in results), 2),
        solver_queries=sum(r["stats"].get("queries", 0) for r in results),
        build_s=round(t_build, 2), proof_wall_s=round(t_proof - t_build, 2),
        undischarged=[dict(function=r["task"], end=r["end"],
                           obligations=[dict(kind=o["kind"], where=o["where"], status=o["status"], msg=o["msg"])
                                        for o in r["obls"] if o["status"] != "discharged"][:12]) for r in bad],
        bounded_stand_ins=bounded_info,
        known_findings={t: dict(text=listed.get(t), functions=len(f)) for t, f in known.items()},
        sample_loop_invariants=[c for r in results for c in r["cuts"]][:4],
    )
    cov.update(extra_cov)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(P, "LEVEL", "proof"), coverage=cov,
              assumptions=BASE_ASSUME + list(getattr(P, "ASSUME", [])), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    if not only:
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s: %d functions under contract, %d/%d obligations discharged, %d undecided/failed functions, %.1fs" % (
        pid, len({(r["unit"], r["fn"]) for r in results}), ndis, nobl, len(bad), time.time() - t0))
    if violations:
        rd = os.path.join(evdir, "replay")
        os.makedirs(rd, exist_ok=True)
        for k, v in enumerate(violations[:5]):
            path = os.path.join(rd, "%s-%d.json" % (pid, k))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            tail = "" if v.get("input") else " no-failing-input-found"
            print("  " + str(v.get("summary", ""))[:400])
            print("VIOLATION property=%s replay=%s%s" % (pid, path, tail))
        return 1
    return 0


def known_findings(pid):
    """lines "known: property=<id> [tag] text" -> {tag: text}"""
    out = {}
    try:
        for ln in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\w+) \[([\w-]+)\] (.*)", ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def decide_bad(P, pid, units, bad, tier, seed, t0):
    """undischarged obligations: replay the counterexamples, search for a failing input, then decide"""
    violations, info = [], []
    names = {r["task"]: r for r in bad}
    search = 25.0 if tier == "quick" else 90.0
    exes = {}
    jobs = []
    for r in bad:
        t = units[r["ui"]].tasks[r["ti"]]
        if t.native:
            jobs.append((r, t))
    srcs = sorted({t.native[0] for _, t in jobs})
    with cf.ThreadPoolExecutor(4) as tp:
        def nb(s):
            try:
                return s, native_build(s)
            except build.BuildError as e:
                return s, None
        exes = dict(tp.map(nb, srcs))
    found = {}
    hits = []

    def attempt(job):
        r, t = job
        if len(hits) >= 3:
            return r, None, None
        exe = exes.get(t.native[0])
        if exe is None:
            return r, None, "native oracle does not build"
        # 1. the verifier's own counterexamples
        for f in r["failures"]:
            m = f.get("model")
            if m and hasattr(P, "replay_args"):
                a = P.replay_args(t, m)
                if a is not None:
                    bad_, txt = native_run(exe, t.native[1] + a, 20)
                    if bad_:
                        hits.append(r["task"])
                        return r, txt, "counterexample of obligation %s at %s" % (f["kind"], f["where"])
        return r, None, None

    def hunt(job, nsearch):
        r, t = job
        exe = exes.get(t.native[0])
        if exe is None:
            return r, None, "native oracle does not build"
        bad_, txt = native_run(exe, t.native[1] + ["--search", str(seed), str(nsearch)], nsearch * 2 + 30)
        if bad_:
            return r, txt, "bounded native search"
        return r, None, txt

    with cf.ThreadPoolExecutor(8) as tp:
        for r, txt, how in tp.map(attempt, jobs):
            if txt:
                found[r["task"]] = (txt, how)
    # 2. bounded symbolic unrolling gives concrete models of the real code
    bjobs = [(r, t) for r, t in jobs if r["task"] not in found and t.bounded is not None]
    if bjobs and not found:
        with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as pp:
            fs = [(r, t, pp.submit(run_bounded, r["ui"], r["ti"], 60.0)) for r, t in bjobs[:16]]
            for r, t, f in fs:
                try:
                    b = f.result()
                except Exception as e:   # noqa
                    continue
                r["bounded"] = dict(end=b["end"], fails=b.get("fails", [])[:3])
                for m in b["models"]:
                    a = P.replay_args(t, m) if hasattr(P, "replay_args") else None
                    if a is not None and exes.get(t.native[0]):
                        bad_, txt = native_run(exes[t.native[0]], t.native[1] + a, 20)
                        if bad_:
                            found[r["task"]] = (txt, "bounded unrolling counterexample")
                            break
    # 3. search
    if not found and jobs:
        uniq = {}
        for r, t in jobs:
            uniq.setdefault((t.native[0], tuple(t.native[1])), (r, t))
        todo = list(uniq.values())
        if len(todo) > 32:
            todo = todo[::(len(todo) + 31) // 32]
        per = max(3.0, min(search, search * 16 / max(8, len(todo))))
        with cf.ThreadPoolExecutor(8) as tp:
            for r, txt, how in tp.map(lambda j: hunt(j, per), todo):
                r["native"] = how if not txt else txt
                if txt:
                    found[r["task"]] = (txt, how)
    for name, (txt, how) in list(found.items())[:3]:
        r = names[name]
        violations.append(dict(property=pid, function=name, input=txt, how=how, summary=name + ": " + txt,
                               failed_obligations=[o for o in r["obls"] if o["status"] != "discharged"][:8],
                               verifier=r["failures"][:4], end=r["end"]))
    if not found:
        for r in bad:
            if r["refuted"]:
                o = [o for o in r["obls"] if o["status"] == "refuted"]
                violations.append(dict(property=pid, function=r["task"], input=None,
                                       summary="%s: obligation %s at %s refuted (%s)" % (r["task"], o[0]["kind"], o[0]["where"], o[0]["msg"]),
                                       failed_obligations=o[:8], verifier=r["failures"][:6], end=r["end"],
                                       native=r.get("native"), bounded=r.get("bounded")))
        violations.sort(key=lambda v: v["function"])
    for r in bad:
        info.append(dict(function=r["task"], label="bounded (not proved)", native=str(r.get("native"))[:200], symbolic=r.get("bounded")))
    return violations, info


BASE_TRUST = [
    "clang 18 front end and the LLVM 18 passes internalize/globaldce/sroa/early-cse/simplifycfg/inline/instsimplify/adce "
    "(C++ source of /repo -> LLVM IR that is verified)",
    "the verification-condition generator in /verif/vc (exec.py, dom.py, llir.py) and z3",
    "the specifications in /verif/vc/spec_*.py and /verif/props",
]
BASE_ASSUME = [
    "code compiled as C++20 with -fno-exceptions for x86-64 (LP64, little endian), asserts on",
    "pointer arithmetic inside an object does not wrap; distinct buffers passed by the caller do not overlap",
    "lengths are between 0 and 2^60",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv))
