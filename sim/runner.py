"""Command line: check <property> | replay <file> | trace <property> <n> (determinism log).

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough), SPAFE_SIM_REPO (default /repo).
"""
import os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def reexec():
    """Fix everything about the interpreter that could differ from run to run."""
    if os.environ.get("SPAFE_SIM_CHILD") == "1":
        return
    import tempfile, subprocess, shutil
    d = tempfile.mkdtemp(prefix="spafe-sim-")
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "VERIF_SEED", "VERIF_TIER", "SPAFE_SIM_REPO", "SIM_WORKERS", "SIM_SCALE", "SIM_HASHSEED", "LD_LIBRARY_PATH")}
    env.update({"SPAFE_SIM_CHILD": "1", "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
                "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(d, "mpl"), "HOME": os.path.join(d, "home"), "TMPDIR": os.path.join(d, "tmp"),
                "XDG_CACHE_HOME": os.path.join(d, "cache"), "SPAFE_SIM_SCRATCH": d, "LC_ALL": "C.UTF-8", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1",
                "PYTHONPATH": VERIF, "USER": "sim"})
    for s in ("mpl", "home", "tmp", "cache", "cwd"):
        os.makedirs(os.path.join(d, s))
    py = PY if os.path.exists(PY) else sys.executable
    args = [os.path.abspath(a) if os.path.exists(a) and i > 1 else a for i, a in enumerate(sys.argv)]
    try:
        rc = subprocess.run([py, "-B", "-m", "sim.runner"] + args[1:], env=env, cwd=os.path.join(d, "cwd")).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


def load_check(pid, tier, seed, pool_jobs=True, workers=8):
    from . import engine, ambient, sandbox, gen, loader, par
    from .checks import ALL
    from .checks2 import ALL2
    table = dict(ALL)
    table.update(ALL2)
    cls = table[pid]
    if getattr(cls, "needs_mpl", False) or pid in ("C06", "C14"):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        f = plt.figure()
        f.add_subplot(111).plot([1, 2])
        f.canvas.draw()
        plt.close(f)
    engine.init()
    ambient.install_entropy()
    if pid == "C07":
        ambient.HOST.install(engine.in_call)
    sandbox.install(engine.in_call, os.environ["SPAFE_SIM_SCRATCH"])
    sandbox.watch_env(engine.in_call)
    sandbox.A.on = False
    import random
    import numpy as np
    np.random.seed(20240101)
    random.seed(20240101)
    ambient.guard()
    pool = gen.Pool(seed)
    if pool_jobs:
        fs = pool.functions()
        n = cls.pool_n * (1 if tier == "quick" else 3)
        res, err, hung, ok = par.run(range(len(fs)), lambda k: (pool.build_one(fs[k], n if fs[k].split(".")[0] != "utils" else 2 * n), sandbox.env_reads()), workers=workers, hang_s=120, deadline_s=600,
                                     init=worker_init)
        if err or hung:
            raise PoolError(err, [fs[k] for k in hung])
        for k, f in enumerate(fs):
            pool.add(f, res[k][0])
        todo = pool.missing()
        more, err, hung, ok = par.run(range(len(todo)), lambda k: (pool.chase(*todo[k], cls.chase_n * (1 if tier == "quick" else 10)), sandbox.env_reads()), workers=workers, hang_s=120, deadline_s=900,
                                      init=worker_init)
        if err or hung:
            raise PoolError(err, [todo[k][1] for k in hung])
        for k in range(len(todo)):
            pool.grow(more[k][0])
        pool.finish()
        pool.env = sorted(set(loader.env_names()).union(*[res[k][1] for k in res], *[more[k][1] for k in more]))
    chk = cls(pool, tier, seed)
    if pool_jobs and hasattr(chk, "survey"):
        todo = chk.survey_jobs()
        res, err, hung, ok = par.run(range(len(todo)), lambda k: chk.survey(todo[k]), workers=workers, hang_s=120, deadline_s=900, init=worker_init)
        if err or hung:
            raise PoolError(err, [todo[k]["f"] for k in hung])
        chk.surveyed([res[k] for k in range(len(todo))])
    return chk


class PoolError(Exception):
    def __init__(self, err, hung):
        self.err, self.hung = err, hung
        super().__init__("building the call pool failed: %s %s" % (err[:1], hung))


def worker_init(idx):
    """In the forked worker: output goes to a file nobody else reads; audit on."""
    from . import sandbox
    sandbox.A.on = True
    p = os.path.join(os.environ["SPAFE_SIM_SCRATCH"], "out.%d" % os.getpid())
    fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
    p = os.path.join(os.environ["SPAFE_SIM_SCRATCH"], "in.%d" % os.getpid())
    with open(p, "w") as f:
        f.write("1\n" * 50000)
    fd = os.open(p, os.O_RDONLY)
    os.dup2(fd, 0)
    os.close(fd)


def head():
    import subprocess
    r = os.environ.get("SPAFE_SIM_REPO", "/repo")
    try:
        return subprocess.run(["git", "-C", r, "rev-parse", "--short", "HEAD"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return "?"


def known(pid, detail):
    import json, re
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return None
    for k in json.load(open(p)).get("open", []):
        if k["property"] == pid and re.search(k["match"], detail):
            return k
    return None


def check(pid):
    import collections, json, time, copy, hashlib
    from . import par
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("SIM_WORKERS", str(min(8, os.cpu_count() or 8))))
    scale = float(os.environ.get("SIM_SCALE", "1"))
    ev = Evidence(pid, tier, seed)
    try:
        chk = load_check(pid, tier, seed, workers=workers)
    except PoolError as e:
        print("cannot run the package alone: %s" % e)
        if e.hung:
            return report(pid, ev, None, {"pool": e.hung, "prop": pid, "seed": seed}, "hang", "calls of %s do not finish even alone" % e.hung, t0)
        return 2
    n = max(1, int(chk.runs() * scale))
    extra = 12                                # these runs are repeated in another worker: same seed, same log?
    jobs = list(range(n)) + [("again", i) for i in range(0, min(n, 400), max(1, min(n, 400) // extra))]
    t1 = time.monotonic()

    def one(i):
        j = i[1] if isinstance(i, tuple) else i
        plan = chk.plan(j)
        r = chk.execute(copy.deepcopy(plan))
        r["plan"] = plan if r["viol"] or j < 2 else None
        import gc
        if j % 40 == 0:
            gc.collect()
        return r
    found = []

    def stop(i, r):
        fresh = [v for v in r["viol"] if known(pid, v[1]) is None]
        if fresh and not isinstance(i, tuple):
            found.append((i, r, fresh))
        return bool(fresh)

    deadline = 420 if tier == "quick" else 6 * 3600
    tries = 0
    while True:
        res, err, hung, complete = par.run(jobs, one, workers=workers, hang_s=(250 if pid == "C11" else 120) if tier == "quick" else 400, deadline_s=deadline, init=worker_init, stop=stop)
        t2 = time.monotonic()
        if not ev.runs:
            ev.add(chk, res, n, t2 - t1, complete, jobs)
        if not found:
            break
        i, r, fresh = min(found, key=lambda x: x[0])
        cls, detail = fresh[0]
        small = shrink(chk, r["plan"], cls, 45 if tier == "quick" else 240)
        rc = report(pid, ev, chk, small, cls, detail, t0, r["plan"])
        tries += 1
        if rc == 2 and tries == 4:
            # four separate runs violated the property; what they depend on is outside the simulator (addresses, say)
            ev.write(t0, 1)
            print("  seen in %d separate runs, none reproduced by its replay file alone" % tries)
            print("VIOLATION property=%s replay=%s" % (pid, replay_path(pid, r["plan"])))
            return 1
        if rc != 2 or time.monotonic() - t0 > (350 if tier == "quick" else 4 * 3600):
            return rc
        # seen, but not in its replay (it depends on something like an address): look for another one
        ahead = max(x[0] for x in found)
        jobs = [j for j in jobs if not isinstance(j, tuple) and j > ahead]
        found.clear()
        if not jobs:
            return rc
    if tries:
        return 2
    finds = {}
    for i, r in res.items():
        for v in r["viol"]:
            k = known(pid, v[1])
            if k is not None:
                finds[k["id"]] = k
    for k in finds.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    crashed = [(i, e) for i, e in err if "died" in e]
    if crashed or hung:
        i = crashed[0][0] if crashed else hung[0]
        j = i[1] if isinstance(i, tuple) else i
        if j != -1:
            kind = "crash" if crashed else "hang"
            plan = safe_plan(chk, j, tier)
            if plan is not None and (chk.hang_is_violation or crashed):
                rc = report(pid, ev, chk, plan, kind, "run %d: the process %s" % (j, "died" if crashed else "never came back"), t0, plan)
                if rc != 2 or crashed:
                    return rc
    if (err or hung) and not crashed and len(err) + len(hung) <= max(1, len(res) // 200):
        # a few runs the harness itself could not carry out; they count as unexplored
        for i, e in err:
            print("run %s not carried out: %s" % (i, e.strip().splitlines()[-1]))
        for i in hung:
            print("run %s not carried out within its time" % (i,))
    elif err or hung:
        for i, e in err[:3]:
            print("harness error in run %s:\n%s" % (i, e))
        for i in hung[:3]:
            print("run %s hung" % (i,))
        ev.write(t0, 0)
        return 2
    ev.write(t0, 0)
    print("property %s held on %d runs (%d calls, %d steps, %d preemptions, faults %s)%s" % (
        pid, ev.runs, ev.calls, ev.steps, ev.sw, dict(ev.fired), "" if complete else " [stopped at the time limit]"))
    return 0


def safe_plan(chk, j, tier):
    """Generate a plan in a forked process (generation runs reference calls, which may hang)."""
    from . import par
    res, err, hung, ok = par.run([j], chk.plan, workers=1, hang_s=200, deadline_s=240, init=worker_init)
    return res.get(j)


def shrink(chk, plan, cls, budget):
    import json, pickle, time
    from . import par, minimise
    best = os.path.join(os.environ["SPAFE_SIM_SCRATCH"], "best.json")

    def save(p):
        with open(best + ".tmp", "w") as f:
            json.dump(p, f)
        os.replace(best + ".tmp", best)
    save(plan)
    par.run([0], lambda _: minimise.minimise(chk, plan, cls, budget, save)[1], workers=1, hang_s=budget + 30, deadline_s=budget + 30, init=worker_init)
    return json.load(open(best))


def replay_path(pid, plan):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-seed%s-run%s.json" % (pid, plan.get("seed", "x"), plan.get("run", "x")))


def report(pid, ev, chk, plan, cls, detail, t0, full=None):
    """Write the replay file, confirm it in a fresh process, print the verdict."""
    import json, subprocess
    path = replay_path(pid, plan)

    def put(p):
        with open(path, "w") as f:
            json.dump({"property": pid, "class": cls, "detail": detail, "plan": p, "tree": head(),
                       "how": "cd /verif && %s -B -m sim.runner replay %s" % (PY, path)}, f, indent=1)

    def again():
        try:
            env = dict(os.environ)
            env.pop("SPAFE_SIM_CHILD")
            env["PYTHONPATH"] = VERIF
            p = subprocess.run([sys.executable, "-B", "-m", "sim.runner", "replay", path], capture_output=True, text=True, env=env, cwd=VERIF, timeout=240)
            return p.returncode == 1 or (cls == "crash" and p.returncode not in (0, 1, 2)), p.stdout
        except subprocess.TimeoutExpired:
            return cls == "hang", "(no answer)"
    put(plan)
    ok, out = again()
    if not ok and full is not None and full is not plan:
        put(full)
        for _ in range(3):
            ok, out = again()
            if ok:
                break
    for l in out.splitlines():
        if l.startswith("  "):
            print(l)
    print("  first seen: %s: %s" % (cls, detail))
    if not ok and pid != "C07":
        print("violation seen but not reproduced by its replay file %s" % path)
        ev.write(t0, 0)
        return 2
    ev.write(t0, 1)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def replay(path):
    import json
    from . import par
    r = json.load(open(path))
    pid = r["property"]
    plan = r["plan"]
    os.environ.setdefault("VERIF_TIER", "quick")
    if "pool" in plan:
        try:
            load_check(pid, "quick", plan["seed"])
        except PoolError as e:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    chk = load_check(pid, "quick", int(plan.get("seed", 1)), pool_jobs=False)
    res, err, hung, ok = par.run([0], lambda _: chk.execute(plan), workers=1, hang_s=100, deadline_s=200, init=worker_init)
    if hung and r["class"] == "hang":
        print("  hang: the run never came back")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if err:
        print(err[0][1])
        if "died" in err[0][1] and r["class"] == "crash":
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 2
    v = res[0]["viol"]
    for c, d in v[:4]:
        print("  %s: %s" % (c, d))
    if v:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("no violation")
    return 0


def trace(pid, n):
    """Print one line per run: the hash of its complete event log (determinism check)."""
    from . import par
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("SIM_WORKERS", "8"))
    chk = load_check(pid, "quick", seed, workers=workers)
    res, err, hung, ok = par.run(range(n), lambda i: chk.execute(chk.plan(i)), workers=workers, init=worker_init)
    for i in range(n):
        r = res.get(i)
        print(i, r and (r["inter"], r["steps"], r["sw"], sorted(r["fired"].items()), len(r["viol"])))
    if err:
        print(err[0][1])
        return 2
    return 0


class Evidence:
    def __init__(self, pid, tier, seed):
        import collections
        self.pid, self.tier, self.seed = pid, tier, seed
        self.fired = collections.Counter()
        self.runs = self.calls = self.steps = self.sw = 0
        self.cov = {}

    def add(self, chk, res, n, secs, complete, jobs):
        from . import engine, loader
        nontriv, inter, fsites, samples = 0, set(), set(), []
        rep = same = 0
        for i, r in res.items():
            if isinstance(i, tuple):
                o = res.get(i[1])
                if o is not None:
                    rep += 1
                    same += r["inter"] == o["inter"]
                continue
            self.runs += 1
            self.calls += r["calls"]
            self.steps += r["steps"]
            self.sw += r["sw"]
            self.fired.update(r["fired"])
            key = (r["inter"], i if r["inter"] in ("p",) else 0)
            if r["nontrivial"] and key not in inter:
                inter.add(key)
                nontriv += 1
            fsites |= set(map(tuple, r["fsites"]))
            if r.get("plan") is not None and len(samples) < 2:
                samples.append(brief_plan(r["plan"]))
        c, t, unc = chk.pool.line_coverage()
        self.cov = {
            "evaluations": self.runs, "distinct_nontrivial": nontriv,
            "rule": "each run is one plan generated from (seed, property, run number); non-trivial: %s; distinct by the hash of the run's complete event log (switches, faults, outcomes)" % NONTRIVIAL[self.pid],
            "samples": samples or [{"plan": "none"}],
            "runs_requested": n, "complete": complete, "seed_base": self.seed, "runs_per_hour": int(self.runs / max(secs, 1e-6) * 3600),
            "simulated_calls": self.calls, "simulated_steps": self.steps, "preemptions": self.sw,
            "time_measure": "simulated time is counted in executed source lines (or bytecode instructions) of the package; the package has no timers",
            "faults_injected": dict(self.fired), "distinct_fault_sites": len(fsites),
            "distinct_event_logs": len(inter), "runs_repeated_in_another_process": rep, "repeated_identically": same,
            "package_lines_reached_by_call_pool": c, "package_lines_total": t, "package_lines_not_reached": unc[:40],
            "jumps_reached_by_call_pool": len({x[:2] for x in chk.pool.covered if len(x) == 3}), "ways_out_of_jumps_taken": len({x for x in chk.pool.covered if len(x) == 3}),
            "state_touching_lines_found": len(chk.pool.hot),
            "real_components": ["all of spafe (executed from /repo's working tree)", "numpy", "scipy", "CPython"] + (["matplotlib (Agg)"] if self.pid in ("C12",) else []),
            "stubbed_components": ["numpy's data allocator (counting, failing, poisoning)", "thread scheduling (one task at a time, plan decides)", "time, datetime, threading and _thread as seen by spafe", "os.urandom / numpy entropy"]
            + (["plt.show (simulated display)"] if self.pid == "C12" else []) + (["importlib's module locks (concurrent imports)"] if self.pid == "C14" else []),
        }

    def write(self, t0, violations):
        import json, time
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        if not self.cov:
            self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the package could not be run", "samples": []}
        o = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": self.cov,
             "assumptions": ASSUME, "wall_s": round(time.monotonic() - t0, 2), "violations": violations}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(o, f, indent=1)


ASSUME = ["compiled numpy/scipy routines execute atomically with respect to other callers (as under the GIL)",
          "interrupts strike between source lines of spafe or, in fine mode, where CPython checks for signals; not inside numpy/scipy Python code",
          "allocation failures are those of numpy array data; interpreter-object and scipy-internal allocations do not fail",
          "sampled, not exhaustive: a clean batch is evidence, not proof"]
NONTRIVIAL = {"C01": "a preemption or fault actually happened", "C02": "the history has at least two calls", "C03": "argument contents were compared during a call",
              "C04": "a fault struck", "C05": "a call was abandoned", "C06": "settings were compared during a call", "C07": "a call ran in changed surroundings or another process",
              "C08": "memory of a result was compared", "C09": "a caller was stalled, killed, interrupted or re-entered", "C10": "a call's I/O was inspected",
              "C11": "retention was measured", "C12": "a plotting call was judged", "C13": "a call ran on poisoned memory", "C14": "modules were imported"}


def brief_plan(p):
    import json
    s = json.dumps(p)
    if len(s) > 3000:
        p = {k: (v if len(json.dumps(v)) < 1200 else json.dumps(v)[:1200] + "...") for k, v in p.items()}
    return p


def main():
    cmd = sys.argv[1]
    reexec()
    sys.setswitchinterval(0.05)
    if cmd == "check":
        rc = check(sys.argv[2])
    elif cmd == "replay":
        rc = replay(sys.argv[2])
    elif cmd == "eval":                # development aid: run a script with the loaded check as `chk`
        chk = load_check(sys.argv[2], "quick", 1)
        exec(open(sys.argv[3]).read(), {"chk": chk})
        rc = 0
    elif cmd == "trace":
        rc = trace(sys.argv[2], int(sys.argv[3]))
    else:
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
