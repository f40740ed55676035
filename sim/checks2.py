"""Surroundings (C07), I/O (C10), retention (C11), plotting (C12) and import (C14) checks."""
import _thread, copy, gc, importlib, json, os, pickle, random, subprocess, sys, threading, time, types, warnings, weakref
import numpy as np
from . import ambient, api, engine, gen, loader, sandbox, seams as S
from .checks import Check, affordable, base_call, related, OUTCOME_NOTE, ultimate
from .digest import arrays_in, digest, exc_digest


# ================================================================== C07
class SurroundMon(engine.Mon):
    def start(self, eng):
        self.eng = eng

    def op_start(self, eng, t, rec, kw):
        t.rs = None if rec.sub or any(f["k"] == "amb" and f["w"] in ("npseed", "seed", "draw") and f["t"] == t.idx and f["o"] == t.opi
                                      for f in eng.plan.get("faults", ())) or len(eng.tasks) > 1 else self.state()

    def state(self):
        return (ambient._rng_state(), hash(random.getstate()))

    def op_end(self, eng, t, rec):
        if t.rs is not None and rec.out[0] != "abort":
            s = self.state()
            if s != t.rs:
                eng.violate("draws", "%s drew from the global %s generator" % (rec.where(), "numpy" if s[0] != t.rs[0] else "random"))


ENVV = ["1", "0", "", "true", "false", "2", "7", "x", "float32", "/nonexistent"]
ENVN = ["SPAFE_DEBUG", "SPAFE_CACHE", "SPAFE_DTYPE", "HOME", "TMPDIR", "LANG", "LC_ALL", "TZ", "DEBUG", "USER"]
FOREIGN = ("OMP_", "OPENBLAS", "MKL_", "DUCC", "NPY_", "NUMPY_", "SCIPY_", "PYTHON", "KMP_", "GOTO_", "BLIS_", "LD_")


def env_value(rng, name):
    """A value for a variable; those of other libraries get values these libraries accept."""
    if name.startswith("PYTHON") or name.startswith("LD_"):
        return None
    if name.startswith(FOREIGN):
        return rng.choice(["1", "2", "4"])
    return rng.choice(ENVV + [None])


def perturbations(rng, scratch, envn=()):
    w = rng.choice(["clock", "clock", "npseed", "seed", "draw", "env", "env", "cwd", "gcoff", "gcon", "entropy", "host", "host", "argv", "tname", "threads", "stdout", "mpname", "tracing", "recursion", "locale", "pace"])
    if w == "pace":
        v = rng.choice([1e-6, 0.3, 400.0, 5000.0, 1e7])
    elif w == "clock":
        v = rng.choice([1e-3, 0.5, 61, 3601, 86400 * 1.5, -5, -86400, 1e7, 3e8, -1e9])
    elif w in ("npseed", "seed", "entropy"):
        v = rng.randrange(1 << 30)
    elif w == "draw":
        v = rng.randrange(1, 50)
    elif w == "env":
        names = list(envn) * 4 + ENVN
        v = {n: env_value(rng, n) for n in rng.sample(names, min(3, len(names)))}
    elif w == "cwd":
        v = "@scratch/cwd%d" % rng.randrange(4)
    elif w == "host":
        h = ambient.Host.FIELDS
        v = {k: rng.choice(h[k]) for k in rng.sample(sorted(h), rng.choice([1, 2, len(h)]))}
    elif w == "argv":
        v = rng.choice([["prog"], ["/usr/bin/pytest", "-q"], ["", "--debug"]])
    elif w == "tname":
        v = rng.choice(["MainThread", "Thread-1", "ThreadPoolExecutor-0_0", "worker"])
    elif w == "threads":
        v = rng.choice([0, 1, 5])
    elif w == "stdout":
        v = rng.choice([0, 1, 2])
    elif w == "mpname":
        v = rng.choice(["MainProcess", "Process-1", "ForkPoolWorker-3"])
    elif w == "locale":
        v = rng.choice([0, 1, 1])
    elif w == "tracing":
        v = rng.choice([0, 1, 2, 3])
    elif w == "recursion":
        v = rng.choice([1500, 3000, 20000])
    else:
        v = None
    return {"w": w, "v": v}


def settings(envn):
    """A fixed list of surroundings that between them give every dial of the simulator each of its values once."""
    out = []
    h = ambient.Host.FIELDS
    for j in range(max(map(len, h.values()))):
        out.append([{"w": "host", "v": {k: v[j % len(v)] for k, v in h.items()}}])
    for v in (0.01, 400.0, 1e6):
        out.append([{"w": "pace", "v": v}])
    for v in (0.7, 61, 3601, 86400 * 3.5, 86400 * 31.0, 86400 * 200.3, -86400 * 400.0, 3e8):
        out.append([{"w": "clock", "v": v}])
    names = [n for n in list(envn) + ENVN[:3] if not n.startswith(("PYTHON", "LD_"))]
    for v in ENVV:
        out.append([{"w": "env", "v": {n: v if not n.startswith(FOREIGN) else "2" for n in names}}])
    for j in range(4):
        out.append([{"w": "tname", "v": ["MainThread", "Thread-1", "ThreadPoolExecutor-0_0", "worker"][j]}, {"w": "threads", "v": [5, 0, 1, 2][j]}, {"w": "argv", "v": [["prog"], ["/usr/bin/pytest", "-q"], ["", "--debug"], ["x"]][j]},
                    {"w": "gcoff" if j % 2 else "gcon", "v": None}, {"w": "stdout", "v": j % 3}, {"w": "locale", "v": j % 2}, {"w": "mpname", "v": ["MainProcess", "Process-1", "ForkPoolWorker-3", "x"][j]}, {"w": "recursion", "v": [1000, 1500, 3000, 20000][j]}, {"w": "tracing", "v": j}, {"w": "cwd", "v": "@scratch/cwd%d" % j}, {"w": "npseed", "v": j * 77 + 5}, {"w": "seed", "v": j + 9}, {"w": "entropy", "v": 31 * j + 2}])
    return out


class C07(Check):
    id = "C07"
    RUNS = {"quick": 1300, "thorough": 40000}
    PROCS = {"quick": 16, "thorough": 160}
    sens = ()

    def survey_jobs(self):
        return [c for c in self.pool.essential if affordable(c, 60000)]

    def survey(self, c):
        """Surroundings under which the call takes another path, asks for something, or ends otherwise."""
        r = engine.ref(c)
        out = []
        n = engine.SEAMS.clock.reads
        self.launch({"tasks": [[c]], "main": True, "faults": []}, True)
        if engine.SEAMS.clock.reads != n:                # it looks at the clock: every day of a leap year, every hour, every minute, other years
            k = 1 + r.nev // 3000
            for t in ([d * 86400 + d % 24 * 3600 for d in range(0, 367, k)] + [h * 3600 + 13 for h in range(0, 24, k)] + [m * 60 + m for m in range(0, 60, k)] +
                      [y * 365.25 * 86400 for y in range(-20, 80, 7 * k)]):
                plan = {"tasks": [[{"act": "amb", "w": "clock", "v": t}, c]], "main": True, "faults": []}
                x = self.launch(plan, True).recs[0].as_ref()
                if x.out != r.out or x.nev != r.nev or x.sites != r.sites:
                    out.append((x.out != r.out, plan))
        for j, s in enumerate(settings(self.pool.env)):
            for main in (True, False):
                for pre in (False, True):
                    if main and pre or (not main and j % 4 and not pre) or pre and j % 3:
                        continue
                    plan = {"tasks": [([] if pre else [dict({"act": "amb"}, **p) for p in s]) + [c]], "main": main, "faults": []}
                    if pre:
                        plan["pre"] = s
                    ambient.HOST.asked = 0
                    eng = self.launch(resolve(plan), True)
                    x = eng.recs[0].as_ref()
                    if x.out != r.out or x.nev != r.nev or x.sites != r.sites or ambient.HOST.asked:
                        out.append((x.out != r.out, plan))
        out.sort(key=lambda x: not x[0])
        return [p for _, p in out[:6]]

    def surveyed(self, res):
        self.sens = [p for ps in res for p in ps]

    def monitor(self, plan):
        return SurroundMon()

    def nontrivial(self, eng):
        return True

    def chase_path(self, rng):
        """A call that reacts to its surroundings without showing it: vary its arguments until it shows."""
        plan = copy.deepcopy(rng.choice(self.sens))
        c = plan["tasks"][0].pop()
        c0 = c
        if rng.random() < 0.8:
            for _ in range(rng.choice([1, 1, 2, 3])):
                w = rng.random()
                if w < 0.35:
                    c = gen.tweak(rng, c, self.pool.consts)
                elif w < 0.6:
                    gen.reshape(rng, c)
                elif w < 0.85 and isinstance(c["a"].get("sig"), dict):
                    v = c["a"]["sig"]
                    v["k"], v["s"] = rng.choice(["noise", "speech", "tone", "sparse", "half", "int", "unit", "const", "pos", "impulse", "dec"]), rng.randrange(1 << 20)
                    if rng.random() < 0.3 and isinstance(v["n"], int):
                        v["n"] = min(20000, int(v["n"] * rng.choice([1, 2, 4])))
                else:
                    gen.enlarge(rng, c)
        if not affordable(c, 60000):
            c = c0
        plan["tasks"][0].append(c)
        if rng.random() < 0.3:
            plan["main"] = not plan["main"]
        self.refs(plan)
        return plan

    def gen(self, rng, i):
        n = self.PROCS[self.tier]
        stride = max(1, self.runs() // n)
        if self.sens and i % stride != stride // 2:
            if i < len(self.sens):
                return copy.deepcopy(self.sens[i])
            if rng.random() < 0.5:
                return self.chase_path(rng)
        if i % stride == stride // 2:
            return self.gen_proc(rng, i, "spawn")
        if rng.random() < 0.06:
            return self.gen_proc(rng, i, "fork")
        fs = self.pool.functions()
        first = self.first(i)
        base = first or (self.pool.cover(rng, i) if rng.random() < 0.5 else base_call(rng, self.pool))
        if not affordable(base, 20000 if first is None else 60000):
            base = base_call(rng, self.pool, True)
        nt = rng.choice([1, 1, 1, 2])
        tasks = []
        for t in range(nt):
            calls = related(rng, self.pool, base, rng.choice([1, 2, 3]))
            calls = [c for c in calls if affordable(c, 20000 if first is None else 60000)]
            ops = []
            self.refs({"tasks": [calls]})
            for c in calls:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    ops.append(dict({"act": "amb"}, **perturbations(rng, None, self.pool.env)))
                ops.append(c)
                if rng.random() < 0.5:
                    ops.append(dict({"act": "amb"}, **perturbations(rng, None, self.pool.env)))
                    ops.append(copy.deepcopy(c))
            tasks.append(ops)
        plan = {"tasks": tasks, "main": rng.random() < 0.5, "faults": [], "amb": {"clock": rng.choice([0, 1e6, -1e8, 1e9, 0.25])}}
        if rng.random() < 0.4:          # already so when the package is imported
            plan["pre"] = [perturbations(rng, None, self.pool.env) for _ in range(rng.choice([1, 2, 4]))]
        refs = self.refs(plan)
        if nt > 1:
            plan["sw"] = gen.schedule(rng, refs, self.pool.hot)
        if rng.random() < 0.5:
            t = rng.randrange(nt)
            o = rng.choice([j for j, r in enumerate(refs[t]) if r is not None])
            plan["faults"].append(dict({"t": t, "o": o, "at": gen.point(rng, refs[t][o]), "k": "amb"}, **perturbations(rng, None, self.pool.env)))
        return plan

    def gen_proc(self, rng, i, how):
        """A batch of calls in another process: fresh interpreter (other hash seed, cwd, environment) or fork."""
        fs = self.pool.functions()
        calls = []
        k = 0
        start = rng.randrange(len(fs))
        n = 70 if how == "spawn" else 6
        while len(calls) < n and k < 3 * n:
            f = fs[(start + k) % len(fs)]
            c = self.pool.pick(rng, f)
            if affordable(c, 20000):
                calls.append(c)
            k += 1
        env = {"PYTHONHASHSEED": str(rng.choice([0, 1, 42, 12345, rng.randrange(1 << 31)])), "TZ": rng.choice(["UTC", "Asia/Tokyo", ""]),
               "HOME": rng.choice(["@scratch/home", "/nonexistent"])}
        for nme in list(self.pool.env) + rng.sample(ENVN[:3], 1):
            x = env_value(rng, nme)
            if x is not None:
                env[nme] = x
        return {"tasks": [calls], "proc": how, "env": env, "cwd": "@scratch/cwd%d" % rng.randrange(3), "thread": rng.random() < 0.5, "clock": rng.choice([0, 1e8, -3e8]), "cpus": rng.choice([0, 1, 2, 3]),
                "order": rng.randrange(1000)}

    def launch(self, plan, sites=False):
        ambient.guard().restore()
        engine.prepare(plan)
        world = None
        if plan.get("pre"):
            for f in plan["pre"]:
                ambient.perturb(None, f)
            ambient.HOST.forced = True
            try:
                world = loader.World()
            finally:
                ambient.HOST.forced = False
        eng = engine.Engine(plan, self.monitor(plan), world=world)
        eng.keep_sites = sites
        eng.run()
        ambient.guard().restore()
        return eng

    def execute(self, plan):
        plan = resolve(plan)
        if not plan.get("proc"):
            eng = self.launch(plan)
            self.judge(eng)
            return self.result(eng)
        ambient.guard().restore()
        engine.prepare(plan)
        calls = plan["tasks"][0]
        if plan["proc"] == "fork":
            outs = run_forked(calls, plan)
        else:
            outs = run_spawned(calls, plan)
        viol = []
        for c, o in zip(calls, outs):
            r = engine.ref(c)
            if tuple(o) != tuple(r.out):
                viol.append(("process", "%s in a %s process (%s) gives %s, in the parent %s" % (
                    c["f"], plan["proc"] + "ed", {k: plan["env"][k] for k in plan["env"]} if plan["proc"] == "spawn" else "same environment", o, r.out)))
        return {"viol": viol[:3], "steps": 0, "sw": 0, "fired": {plan["proc"] + "-process": 1}, "calls": len(outs), "fsites": [], "inter": "p", "log": None,
                "nontrivial": True}


def resolve(plan):
    """Replace @scratch by this run's scratch directory."""
    s = json.dumps(plan)
    if "@scratch" in s:
        return json.loads(s.replace("@scratch", sandbox.SCRATCH or "/nonexistent"))
    return plan


def run_forked(calls, plan):
    r, w = os.pipe()
    a = sandbox.A
    a.on = False
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            a.on = True
            outs = []
            order = list(range(len(calls)))
            random.Random(plan["order"]).shuffle(order)
            res = {}
            for i in order:
                res[i] = engine.solo(calls[i]).out
            outs = [res[i] for i in range(len(calls))]
            os.write(w, pickle.dumps(outs))
        finally:
            os._exit(0)
    a.on = True
    os.close(w)
    b = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else []


def run_spawned(calls, plan):
    env = dict(os.environ)
    env.update(plan["env"])
    for k in [k for k, v in env.items() if v is None]:
        env.pop(k)
    for d in (plan["cwd"],):
        if not os.path.isdir(d):
            os.makedirs(d)
    job = json.dumps({"calls": calls, "thread": plan["thread"], "clock": plan["clock"], "order": plan["order"], "cpus": plan.get("cpus", 0)})
    a = sandbox.A
    a.on = False
    try:
        p = subprocess.run([sys.executable, "-B", "-m", "sim.child"], input=job.encode(), capture_output=True, env=dict(env, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                           cwd=plan["cwd"], timeout=300)
    finally:
        a.on = True
    if p.returncode != 0:
        raise RuntimeError("child failed: " + p.stderr.decode()[-2000:])
    return [tuple(x) for x in json.loads(p.stdout.decode().splitlines()[-1])]


# ================================================================== C10
class IoMon(engine.Mon):
    def start(self, eng):
        self.eng = eng
        sandbox.A.events.clear()
        self.fds0 = fds()
        self.size0 = out_size()
        self.threads0 = set(threading.enumerate())
        self.count0 = _thread._count()
        if stdin_at() is not None:
            os.lseek(0, 0, os.SEEK_SET)
            sys.stdin = open(0, closefd=False)
        self.stdin0 = stdin_at()
        self.reported = set()
        self.looked = 0

    def check(self, rec):
        self.looked += 1
        ev = list(sandbox.A.events)
        sandbox.A.events.clear()
        for e, what in ev[:3]:
            self.bad(rec, "io", "it did %s %s" % (e, what))
        s = out_size()
        if s != self.size0:
            self.size0 = s
            self.bad(rec, "print", "it wrote to standard output or error")
        th = [t for t in threading.enumerate() if t not in self.threads0]
        if th:
            for t in th:
                t.join(0.3)
            th = [t for t in th if t.is_alive()]
            if th:
                self.threads0 |= set(th)
                self.bad(rec, "thread", "it left a thread running (%s)" % th[0].name)
        n = _thread._count()
        for _ in range(30):
            if n <= self.count0:
                break
            time.sleep(0.01)
            n = _thread._count()
        if n > self.count0:
            self.bad(rec, "thread", "it left a thread running")
        self.count0 = n
        s = stdin_at()
        if s != self.stdin0:
            self.stdin0 = s
            self.bad(rec, "io", "it read from standard input")

    def bad(self, rec, cls, what):
        if (cls, what) not in self.reported:
            self.reported.add((cls, what))
            self.eng.violate(cls, "%s (%s): %s" % (rec.where(), rec.out[0], what))

    def op_end(self, eng, t, rec):
        if rec.out[0] != "abort":
            self.check(rec)
            self.last = rec

    def end(self, eng):
        f = fds()
        if f != self.fds0 and eng.recs:
            gc.collect()
            f = fds()
            if f - self.fds0:
                eng.violate("fd", "calls %s left %d file descriptor(s) open" % ([r.op["f"] for r in eng.recs][:4], len(f - self.fds0)))


def stdin_at():
    try:
        return os.lseek(0, 0, os.SEEK_CUR)
    except OSError:
        return None


def fds():
    out = set()
    for n in os.listdir("/proc/self/fd"):
        try:
            out.add((n, os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass
    return {x for x in out if "/proc/" not in x[1]}


def out_size():
    for s in (sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__):
        try:
            s.flush()
        except Exception:
            pass
    a, b = os.fstat(1), os.fstat(2)
    return (a.st_ino, a.st_size, b.st_ino, b.st_size)


class C10(Check):
    id = "C10"
    RUNS = {"quick": 1400, "thorough": 40000}
    capture = True

    def monitor(self, plan):
        return IoMon()

    def nontrivial(self, eng):
        return eng.mon.looked > 0

    def gen(self, rng, i):
        fs = self.pool.functions()
        f = fs[i % len(fs)]
        where = tg = None
        w = rng.random()
        first = self.first(i)
        if first is not None:
            tg = (first, None)
        elif w < 0.4:
            tg = (self.pool.hot_target(rng) if w < 0.2 else None) or self.pool.target(rng, i)
        base, where = tg if tg else ((self.pool.pick(rng, f) if w < 0.8 else base_call(rng, self.pool)), None)
        if first is None and not affordable(base, 25000):
            base, where = base_call(rng, self.pool, True), None
        calls = related(rng, self.pool, base, rng.choice([1, 2, 4]))
        calls = [c for c in calls if affordable(c, 25000 if first is None else 60000)]
        calls = [api.invalidate(rng, c) if rng.random() < 0.2 and (j or (where is None and first is None)) else c for j, c in enumerate(calls)]
        if rng.random() < 0.2:             # files lie about
            calls.insert(rng.randrange(len(calls)) if where is None else 0, {"act": "amb", "w": "cwd", "v": "@scratch/cwd%d" % rng.randrange(4)})
        plan = {"tasks": [calls], "main": True, "faults": []}
        refs = self.refs(plan)
        for o, r in enumerate(refs[0]):
            if r is None:
                continue
            if (rng.random() < 0.45 and (o or first is None)) or (o == 0 and where is not None):
                k = rng.choice(["kbd", "alarm", "mem", "mem", "exit"])
                at = gen.place(rng, r, k, self.pool.hot, where if o == 0 else None)
                if at is not None:
                    plan["faults"].append({"t": 0, "o": o, "at": at, "k": k})
        return plan

    def judge(self, eng):
        pass

    def execute(self, plan):
        return super().execute(resolve(plan))


# ================================================================== C11
class L(list):
    """a list that can be weakly referenced"""


class KeepMon(engine.Mon):
    traceless = False

    def start(self, eng):
        self.eng = eng
        self.refs = []
        self.checked = 0
        self.reported = 0

    def op_start(self, eng, t, rec, kw):
        self.sweep()
        for k, v in list(kw.items()):
            if isinstance(v, list):
                kw[k] = v = L(v)
            if isinstance(v, np.ndarray):
                self.refs.append((k, rec.op["f"], rec.o, weakref.ref(v)))
                u = ultimate(v)
                if u is not v:
                    self.refs.append((k, rec.op["f"], rec.o, weakref.ref(u)))
            elif isinstance(v, L) or hasattr(v, "win_len"):
                self.refs.append((k, rec.op["f"], rec.o, weakref.ref(v)))

    def op_end(self, eng, t, rec):
        rec.value = rec.kw = None

    def sweep(self):
        alive = [x for x in self.refs if x[3]() is not None]
        if alive:
            gc.collect()
            alive = [x for x in self.refs if x[3]() is not None]
        self.checked += len(self.refs)
        for k, f, o, _ in alive[:2]:
            if self.reported < 4:
                self.reported += 1
                self.eng.violate("retained", "after %s (op %d) ended, the library still holds its argument %r" % (f, o, k))
        self.refs = []

    def act(self, eng, t, op):
        if op["act"] == "chk":
            self.sweep()


class GrowMon(engine.Mon):
    """Measures what stays allocated while a long history of ever new calls goes by."""
    traceless = False

    def __init__(self, n, world):
        self.n, self.world = n, world
        self.marks = {}
        self.at = {n // 4, n // 2, (3 * n) // 4, n - 1}

    def start(self, eng):
        self.i = 0

    def op_end(self, eng, t, rec):
        rec.value = rec.kw = rec.op = rec.call = None
        eng.recs.clear()
        eng.log.clear()
        eng.fsites.clear()

    def act(self, eng, t, op):
        if self.i in self.at:
            gc.collect()
            st = engine.alloc.stats()
            self.marks[self.i] = (sys.getallocatedblocks(), st[2], st[3], loader.held_size(self.world))
        self.i += 1


class C11(Check):
    id = "C11"
    RUNS = {"quick": 760, "thorough": 6000}
    hang_is_violation = False

    def nontrivial(self, eng):
        return True

    def gen(self, rng, i):
        fs, es = self.pool.functions(), self.pool.essential
        i0 = len(fs) * 3
        if i < i0 or rng.random() < 0.1:
            f = fs[i % len(fs)]
            return {"grow": f, "n": 200, "s": rng.randrange(1 << 30), "faulty": len(fs) <= i < 2 * len(fs), "axis": gen.axis(rng, f, i // len(fs)), "tasks": [[]]}
        if i < i0 + len(es) and affordable(es[i - i0], 4000):        # every way through the code, taken again and again
            c = copy.deepcopy(es[i - i0])
            return {"grow": c["f"], "base": c, "n": 200, "s": rng.randrange(1 << 30), "faulty": False, "axis": None, "tasks": [[]]}
        first = self.first(i - i0 - len(es))
        base = first or (self.pool.cover(rng, i) if rng.random() < 0.5 else base_call(rng, self.pool))
        calls = related(rng, self.pool, base, rng.choice([2, 4]))
        calls = [c for c in calls if affordable(c, 20000 if first is None else 60000)]
        ops = []
        for j, c in enumerate(calls):
            if (j or first is None) and "fbanks" in dict(api.API[c["f"]]) and rng.random() < 0.3:
                c["a"]["fbanks"] = api.fbanks_for(rng, c["a"])
            ops += [api.invalidate(rng, c) if rng.random() < 0.15 and (j or first is None) else c, {"act": "chk"}]
        plan = {"tasks": [ops], "main": rng.random() < 0.5, "faults": []}
        refs = self.refs(plan)
        for o, r in enumerate(refs[0]):
            if r is not None and rng.random() < 0.5:
                k = rng.choice(["kbd", "alarm", "mem", "exit"])
                at = gen.place(rng, r, k, self.pool.hot)
                if at is not None:
                    plan["faults"].append({"t": 0, "o": o, "at": at, "k": k})
        return plan

    def monitor(self, plan):
        return KeepMon()

    def judge(self, eng):
        pass

    def execute(self, plan):
        if "grow" not in plan:
            return super().execute(plan)
        ambient.guard().restore()
        warnings.simplefilter("default")     # as in any program: one line of a module's registry per new warning text
        world = loader.World()
        steps = calls = 0
        fired = {}

        def go(n, salt, j0=0):
            nonlocal steps, calls
            ops, faults = self.history(plan, n, salt, j0)
            m = GrowMon(n, world)
            e = engine.Engine({"tasks": [ops], "main": True, "noref": True, "faults": faults}, m, world=world)
            e.run()
            steps += e.steps
            calls += n
            for k, v in e.fired.items():
                fired[k] = fired.get(k, 0) + v
            mk = [m.marks[k] for k in sorted(m.marks)]
            q = n // 4
            return [[(b[j] - a[j]) / q for j in range(4)] for a, b in zip(mk, mk[1:])]      # per call: blocks, arrays, array bytes, bytes the package's modules hold

        rates = go(plan["n"], 0)
        viol = []
        n, salt, cost = plan["n"], 0, steps / plan["n"]
        for m in (400, 1200, 6000):          # only what keeps growing is followed further
            if not growing(rates[-2:]):
                break
            per = cost * (1 + m / n)         # sizes go on rising
            if m == 1200:
                m = max(400, min(m, int(15e6 // max(1, per)) // 4 * 4))
            if m == 6000:                    # a bound may lie further off; as far as affordable
                m = min(m, int(12e6 // max(1, per)) // 4 * 4)
                if m < 1200:
                    break
            salt += 1
            s0 = steps
            rates = go(m, salt, n)
            cost = (steps - s0) / m
            n += m
        if growing(rates[-2:]) and n >= 1000:
            viol.append(("grows", "%d calls of %s with ever new arguments: per call %.2f objects, %.2f arrays, %.0f array bytes stay allocated, the package's modules grow by %.0f bytes" % (
                n, plan["grow"], *rates[-1])))
        ambient.guard().restore()
        return {"viol": viol, "steps": steps, "sw": 0, "fired": fired, "calls": calls, "fsites": [], "inter": "g%s:%d" % (plan["grow"], plan["s"]), "log": None, "nontrivial": True,
                "rates": rates[-1]}

    def history(self, plan, n, salt, j0):
        rng = gen.rng_for(plan["s"], salt)
        f = plan["grow"]
        ops, faults = [], []
        ps = dict(api.API[f])
        for j in range(n):
            # sizes rise while screening, then come from far above downwards: what is bounded in number but not in the size of its entries does not rise then
            at = j0 + (n - 1 - j if salt else j)
            if plan.get("base"):
                c = copy.deepcopy(plan["base"])
                for k, v in c["a"].items():
                    if isinstance(v, dict) and v.get("$") == "arr":
                        v["s"] = rng.randrange(1 << 30)
                    elif isinstance(v, float) and j % 2:
                        c["a"][k] = v * (1 + 1e-9 * at)
                if j % 2:
                    gen.step("length", c, at)
                ops += [{"act": "amb", "w": "newthread", "v": at}] * (j % 3 == 0) + [c, {"act": "mark"}]
                continue
            if j % 10 == 0:
                ctx = api.Ctx(rng, True)
            c = api.gen_call(rng, f, ctx)
            a = c["a"]
            for k, v in a.items():
                if isinstance(v, dict) and v.get("$") == "arr":
                    v["s"] = rng.randrange(1 << 30)
                    if v["k"] in ("zeros",):
                        v["k"] = "noise"
            for k in ("low_freq", "lower_cutoff", "f0", "f", "fb", "min_freq", "spectral_threshold", "pre_emph_coeff", "lam_t", "lm_a", "q_rate", "gamma", "harmonic_threshold", "fc", "T"):
                if k in a and isinstance(a[k], (int, float)):
                    a[k] = float(a[k]) + rng.random() * (0.001 if k in ("spectral_threshold", "lam_t", "lm_a") else 1 if k not in ("pre_emph_coeff", "gamma", "q_rate", "harmonic_threshold", "T") else 0.02)
                elif k in ("low_freq", "pre_emph_coeff") and k in ps:
                    a[k] = rng.random() * (100 if k == "low_freq" else 0.99)
            gen.step(plan.get("axis"), c, at)
            ops.append(c)
            if plan["faulty"] and rng.random() < 0.6:
                faults.append({"t": 0, "o": len(ops) - 1, "at": rng.randint(1, 60), "k": rng.choice(["kbd", "alarm"])})
            ops.append({"act": "mark"})
        return ops, faults


def growing(rates):
    """Each of the last two quarters keeps something per call."""
    last = rates[-2:]
    return all(r[0] > 0.45 for r in last) or all(r[1] > 0.3 for r in last) or all(r[2] > 48 for r in last) or all(r[3] > 3 for r in last)


# ================================================================== C12
def vis_calls():
    g2 = lambda n, m: {"$": "arr", "k": "pos", "n": [n, m], "lay": "C"}

    def fb(r):
        n = r.choice([3, 6, 10])
        m = r.choice([17, 33, 65])
        a = {"fbanks": dict(g2(n, m), s=r.randrange(999)), "center_freqs": {"$": "arr", "k": "inc", "n": n, "gain": 300.0, "s": r.randrange(99)},
             "ref_freqs": {"$": "arr", "k": "inc", "n": m, "gain": 60.0, "s": r.randrange(99)}}
        if r.random() < 0.6:
            a["fb_type"] = r.choice(["mel", "bark", "gamma", "lin"])
        if r.random() < 0.5:
            a["show_center_freqs"] = r.choice([True, False])
        if r.random() < 0.5:
            a["title"] = r.choice(["T", "Bark filter banks", ""])
        if r.random() < 0.4:
            a["figsize"] = r.choice([[6, 4], [14, 5]])
        return {"f": "utils.vis:show_fbanks", "a": a}

    def sp(r):
        a = {"spectrogram": dict(g2(r.choice([8, 20]), r.choice([12, 30])), s=r.randrange(999)), "fs": 16000, "xmin": 0, "xmax": r.choice([1, 2.5]), "ymin": 0, "ymax": r.choice([4, 8])}
        if r.random() < 0.6:
            a["colorbar"] = r.choice([True, False])
        if r.random() < 0.5:
            a["dbf"] = r.choice([80.0, 40.0, 3.0])
        if r.random() < 0.4:
            a["cmap"] = r.choice(["jet", "viridis", "gray_r", "magma"])
        if r.random() < 0.3:
            a["spectrogram"]["k"] = r.choice(["zeros", "noise"])
        if r.random() < 0.4:
            a["figsize"] = r.choice([[6, 4], [14, 5]])
        return {"f": "utils.vis:show_spectrogram", "a": a}

    def ft(r):
        a = {"feats": dict(g2(r.choice([5, 20]), r.choice([6, 13])), s=r.randrange(999)), "title": r.choice(["t", "MFCC"]), "ylabel": "y", "xlabel": "x"}
        if r.random() < 0.4:
            a["cmap"] = r.choice(["jet", "viridis", "gray_r", "magma"])
        if r.random() < 0.4:
            a["figsize"] = r.choice([[6, 4], [14, 5]])
        return {"f": "utils.vis:show_features", "a": a}

    def odd(g):
        """Unusual contents, element types, layouts and sizes."""
        def f(r):
            c = g(r)
            x = c["a"][[k for k in ("fbanks", "spectrogram", "feats") if k in c["a"]][0]]
            if r.random() < 0.5:
                w = r.random()
                if w < 0.4:
                    x["k"] = r.choice(["nan", "sparse", "zeros", "noise", "const", "unit", "inf"])
                elif w < 0.6:
                    x["dt"] = r.choice(["float32", "int16", "int32"])
                elif w < 0.8:
                    x["lay"] = r.choice(["ro", "F", "str", "rev"])
                elif "fbanks" not in c["a"]:
                    x["n"] = r.choice([[1, 9], [9, 1], [120, 90], [257, 40], [2, 2]])
            return c
        return f
    return [odd(fb), odd(sp), odd(ft)]


def fig_digest(fig, render=False):
    out = [tuple(np.round(fig.get_size_inches(), 9)), fig.get_facecolor(), [t.get_text() for t in fig.texts], len(fig.axes)]
    for ax in fig.axes:
        out.append((type(ax).__name__, tuple(np.round(ax.get_position().bounds, 9)), ax.get_title(), ax.get_title("left"), ax.get_xlabel(), ax.get_ylabel(),
                    tuple(np.round(ax.get_xlim(), 9)), tuple(np.round(ax.get_ylim(), 9)), ax.get_xscale(), ax.get_yscale(), str(ax.get_aspect()),
                    len(ax.patches), ax.get_facecolor(), ax.axison, ax.xaxis._major_tick_kw.get("gridOn"), ax.yaxis._major_tick_kw.get("gridOn"),
                    len(ax.child_axes), ax.get_legend() is not None))
        out.append([round(float(x), 9) for x in ax.get_xticks()])
        for l in ax.lines:
            out.append((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), str(l.get_color()), l.get_linestyle(), l.get_linewidth(), l.get_marker(), l.get_visible()))
        for c in ax.collections:
            out.append((type(c).__name__, [np.asarray(p.vertices) for p in c.get_paths()][:50], np.asarray(c.get_edgecolor())))
        for t in ax.texts:
            out.append((t.get_position(), t.get_text(), t.get_color(), t.get_visible()))
        for im in ax.images:
            arr = im.get_array()
            out.append((np.ma.getdata(arr), im.get_clim(), im.get_cmap().name, tuple(im.get_extent()), im.origin, im.get_interpolation(), im.get_alpha()))
    d = digest(_plain(out))
    if render:
        fig.canvas.draw()
        d += "/" + digest(np.asarray(fig.canvas.buffer_rgba()))
    return d


def _plain(v):
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


class DisplayFailure(RuntimeError):
    pass


class PlotMon(engine.Mon):
    """The simulated display and the caller's own figures."""

    def __init__(self, check, plan):
        self.check, self.plan = check, plan
        self.seen = 0

    def start(self, eng):
        import matplotlib.pyplot as plt
        import matplotlib
        self.plt, self.mpl, self.eng = plt, matplotlib, eng
        plt.close("all")
        self.shows = []
        self.real_show = plt.show
        plt.show = self.show
        self.rcbase = dict(matplotlib.rcParams)
        for k, v in self.plan.get("rc", {}).items():
            matplotlib.rcParams[k] = v
        self.rc0 = ambient.rc()
        self.modes = {}
        self.new_by_op = {}

    def show(self, *a, **k):
        mode = self.mode
        self.shows.append(mode)
        self.eng.fired["display-" + mode] = self.eng.fired.get("display-" + mode, 0) + 1
        if mode == "fail":
            raise DisplayFailure("no display")
        if mode == "kbd":
            raise self.kbd
        if mode == "close" and self.plt.get_fignums():
            self.closed = self.plt.gcf().number
            self.plt.close(self.plt.gcf())
        if mode == "closeall":
            pass

    def snapshot(self):
        return {n: fig_digest(self.plt.figure(n)) for n in []}

    def figs(self):
        from matplotlib._pylab_helpers import Gcf
        return {m.num: m.canvas.figure for m in Gcf.figs.values()}

    def op_start(self, eng, t, rec, kw):
        self.mode = rec.op.get("show", "ok")
        self.kbd = KeyboardInterrupt("while showing")
        self.closed = None
        self.before = {n: (f, fig_digest(f)) for n, f in self.figs().items()}
        self.argd = {k: digest(v) for k, v in kw.items()}
        eng.bad12 = getattr(eng, "bad12", set())

    def bad(self, rec, cls, what):
        if (cls, rec.o) not in self.eng.bad12:
            self.eng.bad12.add((cls, rec.o))
            self.eng.violate(cls, "%s (%s): %s" % (rec.where(), rec.out[0], what))

    def op_end(self, eng, t, rec):
        if rec.op["f"].split(":")[1] not in ("show_fbanks", "show_spectrogram", "show_features"):
            return
        self.seen += 1
        now = self.figs()
        for n, (f, d) in self.before.items():
            if n not in now:
                self.bad(rec, "closed", "it closed the caller's figure %s" % n)
            elif now[n] is not f:
                self.bad(rec, "replaced", "it replaced the caller's figure %s" % n)
            elif fig_digest(f) != d:
                self.bad(rec, "drew-on", "it changed the caller's figure %s" % n)
        new = [n for n in now if n not in self.before]
        whole = rec.out[0] == "ret"
        n_exp = 0 if self.closed is not None and self.closed not in self.before else 1
        if whole and len(new) != n_exp:
            self.bad(rec, "count", "it opened %d new figures" % len(new))
        if not whole and len(new) > 1:
            self.bad(rec, "count", "it opened %d new figures" % len(new))
        if not eng.reference and self.plan.get("judge", True):
            if whole and len(new) == 1:
                exp = self.check.figref(rec.call, self.plan.get("rc", {}))
                got = fig_digest(now[new[0]], True)
                if exp != got:
                    self.bad(rec, "contents", "its figure is not the one its arguments and the plotting defaults determine (%s vs %s)" % (got, exp))
            for k, v in rec.kw.items():
                if digest(v) != self.argd[k]:
                    self.bad(rec, "argument", "it changed argument %r" % k)
            r = ambient.rc()
            d = ambient.diff(self.rc0, r)
            if d:
                self.bad(rec, "rc", "it changed plotting defaults %s" % d[:3])
        rec.extra = [fig_digest(now[n], True) for n in new] if eng.plan.get("want") else None
        if rec.op.get("closenew"):
            for n in new:
                self.plt.close(n)

    def act(self, eng, t, op):
        plt = self.plt
        k = op["act"]
        if k == "fig":                     # the caller draws something of its own
            f = plt.figure(num=op.get("num"))
            r = random.Random(op["s"])
            w = op.get("kind", 0)
            if w == 0:
                plt.plot([r.random() for _ in range(5)])
                plt.title("mine")
            elif w == 1:
                plt.imshow(np.arange(12).reshape(3, 4) * r.random())
            elif w == 2:
                f.add_subplot(121)
                plt.plot([1, 2, 3])
                f.add_subplot(122)
            # w == 3: an empty figure
        elif k == "select":
            ns = plt.get_fignums()
            if ns:
                plt.figure(ns[op["i"] % len(ns)])
        elif k == "close":
            ns = plt.get_fignums()
            if ns:
                plt.close(ns[op["i"] % len(ns)])
        elif k == "drawmine":
            if plt.get_fignums():
                plt.plot([0, 1], [op["s"] % 7, 1])

    def end(self, eng):
        self.plt.show = self.real_show
        self.plt.close("all")
        dict.update(self.mpl.rcParams, self.rcbase)


class C12(Check):
    id = "C12"
    RUNS = {"quick": 400, "thorough": 9000}
    needs_mpl = True

    def __init__(self, *a):
        super().__init__(*a)
        self._figrefs = {}

    def nontrivial(self, eng):
        return eng.mon.seen > 0

    def monitor(self, plan):
        return PlotMon(self, plan)

    def figref(self, call, rc):
        k = api.key([call, rc])
        if k not in self._figrefs:
            raise RuntimeError("figure reference missing")
        return self._figrefs[k]

    def learn(self, call, rc):
        k = api.key([call, rc])
        if k not in self._figrefs:
            p = {"tasks": [[call]], "main": True, "rc": rc, "judge": False, "want": True, "noref": True}
            m = PlotMon(self, p)
            e = engine.Engine(p, m)
            e.reference = True
            e.keep_sites = True
            e.run()
            r = e.recs[0]
            self._figrefs[k] = r.extra[0] if r.extra else "none"
            engine.REFS[api.key(call)] = r.as_ref()

    def gen(self, rng, i):
        vs = vis_calls()
        ops = []
        rc = rng.choice([{}, {}, {"figure.figsize": [5.0, 3.0]}, {"axes.grid": True}, {"image.cmap": "gray", "font.size": 8.0}, {"lines.linewidth": 3.0}])
        if rng.random() < 0.3:
            rc = dict(rc, interactive=True)
        for _ in range(rng.choice([1, 2, 3])):
            for _ in range(rng.choice([0, 1, 1, 2]) if rng.random() < 0.9 else rng.choice([5, 9, 16, 24])):
                w = rng.random()
                if w < 0.6:
                    ops.append({"act": "fig", "s": rng.randrange(99), "kind": rng.randrange(4), "num": rng.choice([None, None, 1, 3, "mine"])})
                elif w < 0.75:
                    ops.append({"act": "select", "i": rng.randrange(5)})
                elif w < 0.85:
                    ops.append({"act": "close", "i": rng.randrange(5)})
                else:
                    ops.append({"act": "drawmine", "s": rng.randrange(99)})
            c = rng.choice(vs)(rng)
            if rng.random() < 0.2 and [o for o in ops if "f" in o]:
                c = {k: copy.deepcopy(v) for k, v in rng.choice([o for o in ops if "f" in o]).items() if k in ("f", "a")}
            c["show"] = rng.choice(["ok", "ok", "ok", "fail", "close", "kbd"])
            ops.append(c)
        plan = {"tasks": [ops], "main": True, "rc": rc, "faults": []}
        self.prep(plan)
        if rng.random() < 0.6:
            os_ = [o for o, op in enumerate(ops) if "f" in op]
            for o in rng.sample(os_, min(len(os_), rng.choice([1, 2]))):
                r = engine.REFS[api.key(api.canon(ops[o]))]
                k = rng.choice(["kbd", "alarm", "mem", "exit"])
                if k == "mem":
                    if r.nalloc:
                        plan["faults"].append({"t": 0, "o": o, "at": rng.randrange(min(r.nalloc, 400)), "k": "mem"})
                elif r.nev:
                    plan["faults"].append({"t": 0, "o": o, "at": rng.randint(1, r.nev), "k": k})
        return plan

    def prep(self, plan):
        for op in plan["tasks"][0]:
            if "f" in op:
                self.learn(api.canon(op), plan.get("rc", {}))

    def execute(self, plan):
        ambient.guard().restore()
        self.prep(plan)
        ambient.guard().restore()
        eng = engine.Engine(plan, self.monitor(plan)).run()
        ambient.guard().restore()
        return self.result(eng)


# ================================================================== C14
class ImportMon(engine.Mon):
    pass


class BlockFinder:
    """Pretends that a library is not installed."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


class ImportEngine(engine.Engine):
    """Tasks import modules; module code is executed under the scheduler."""

    def __init__(self, plan):
        super().__init__(plan, engine.Mon(), world=_NoWorld())
        self.failed = []

    def do(self, t, op):
        if op.get("act") != "import":
            return super().do(t, op)
        rec = engine.Rec(t.idx, t.opi, {"f": "import " + op["m"], "a": {}}, None, None)
        self.recs.append(rec)
        t.rec = rec
        self.arm(t, rec)
        t.bound = 400000
        t.fair = engine.BIG
        self.renext(t)
        t.live = True
        t.incall += 1
        try:
            importlib.import_module(op["m"])
            t.live = False
            rec.out = ("ret", op["m"])
        except S.SimAbort:
            t.live = False
            rec.out = ("abort", "")
        except BaseException as e:
            t.live = False
            if e is rec.injected:
                rec.out = ("inj", type(e).__name__)
            else:
                rec.out = ("exc", exc_digest(e))
                if rec.injected is None:
                    self.violate("import", "importing %s (%s) raised %s" % (op["m"], self.plan["mode"], exc_digest(e)))
                else:
                    self.violate("import-swallowed", "an interrupt while importing %s became %s" % (op["m"], exc_digest(e)))
            e.__traceback__ = None
        t.incall -= 1
        if rec.injected is not None and rec.out[0] == "ret":
            self.violate("import-swallowed", "an interrupt at %s while importing %s was swallowed" % (rec.extra, op["m"]))
        rec.nev = t.ev
        self.steps += t.ev
        self.log.append(("out", t.idx, t.opi) + rec.out)


class _NoWorld:
    modules = {}

    def activate(self):
        loader.purge()

    def get(self, ref):
        return None


class C14(Check):
    id = "C14"
    RUNS = {"quick": 700, "thorough": 20000}

    def nontrivial(self, eng):
        return True

    def mods(self):
        return list(loader.source().mods)

    def gen(self, rng, i):
        mods = self.mods()
        if i < 2 * len(mods):
            first = mods[i % len(mods)]
            rest = [m for m in mods if m != first]
            rng.shuffle(rest)
            order = [first] + (rest if i < len(mods) else [])
            mode = "order"
        else:
            mode = rng.choice(["order", "interrupt", "interrupt", "interrupt", "concurrent", "concurrent", "nomatplotlib"])
            order = rng.sample(mods, len(mods))
            if mode != "order" and rng.random() < 0.5:
                order = order[:rng.choice([1, 2, 4])]
        plan = {"mode": mode, "order": order, "faults": [], "main": rng.random() < 0.6, "vary": i % 4}
        if mode == "concurrent":
            nt = rng.choice([2, 3])
            a = [rng.sample(order, len(order)) if rng.random() < 0.7 else list(order) for _ in range(nt)]
            plan["tasks"] = [[{"act": "import", "m": m} for m in x] for x in a]
            plan["main"] = False
            tot = 700
            sw = []
            for t in range(nt):
                for o in range(len(a[t])):
                    for _ in range(rng.choice([0, 1, 2, 4])):
                        sw.append([t, o, rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, tot)]), rng.randrange(nt)])
            plan["sw"] = sw
        else:
            plan["tasks"] = [[{"act": "import", "m": m} for m in order]]
        if mode == "interrupt":
            # struck during some imports; each is simply repeated
            ops = []
            for m in order:
                if rng.random() < 0.5 or len(order) == 1:
                    plan["faults"].append({"t": 0, "o": len(ops), "at": rng.choice([rng.randint(1, 15), rng.randint(1, 80), rng.randint(1, 500)]),
                                           "k": rng.choice(["kbd", "alarm", "exit"])})
                    ops.append({"act": "import", "m": m})
                ops.append({"act": "import", "m": m})
            plan["tasks"] = [ops]
        fs = [f for f in self.pool.functions()]
        calls = []
        for _ in range(6 if mode != "order" else 4):
            c = self.pool.pick(rng, rng.choice(fs))
            if affordable(c, 20000):
                calls.append(c)
        if mode == "nomatplotlib":
            k = rng.randrange(len(fs))
            calls = [self.pool.pick(rng, fs[(k + j) % len(fs)]) for j in range(14)]
            calls = [c for c in calls if affordable(c, 20000)]
        plan["calls"] = calls
        return plan

    def execute(self, plan):
        ambient.guard().restore()
        for c in plan["calls"]:
            engine.ref(c)
        ambient.guard().restore()
        loader.purge()
        ambient.vary(plan.get("vary"))
        m0, md0, tw0 = ambient.medium(), ambient.modules(None), ambient.thread_wide()
        rc0 = ambient.rc()
        sandbox.A.events.clear()
        size0 = out_size()
        th0 = set(threading.enumerate())
        blocker = None
        saved = {}
        from importlib import _bootstrap as B
        real_thread = B._thread
        gone = None
        try:
            if plan["mode"] == "nomatplotlib":
                blocker = BlockFinder({"matplotlib", "mpl_toolkits", "pylab"})
                saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in blocker.names}
                for k in saved:
                    del sys.modules[k]
                sys.meta_path.insert(0, blocker)
            if plan["mode"] == "concurrent":
                B._thread = engine.SEAMS.map["_thread"]
                B._module_locks.clear()
            eng = ImportEngine(plan)
            try:
                eng.run()
            finally:
                B._thread = real_thread
                if plan["mode"] == "concurrent":
                    B._module_locks.clear()
            after = ambient.medium()
            if blocker is not None:
                m0 = dict(m0, hooks=after["hooks"])
            d = ambient.diff(m0, after) + ambient.diff(tw0, ambient.thread_wide())
            d += [x for x in ambient.public_module_changes(md0, ambient.modules(None))]
            if rc0 is not None and blocker is None:
                d += ambient.diff(rc0, ambient.rc())
            if d:
                eng.violate("import-setting", "importing (%s) changed process-wide settings %s" % (plan["mode"], d[:4]))
            for e, what in sandbox.A.events[:2]:
                eng.violate("import-io", "importing did %s %s" % (e, what))
            if out_size() != size0:
                eng.violate("import-print", "importing wrote to standard output or error")
            left = [t for t in threading.enumerate() if t not in th0]
            if left:
                eng.violate("import-thread", "importing started thread %s" % left[0].name)
            # every module that was imported works
            self.check_functions(plan, eng)
        finally:
            B._thread = real_thread
            if blocker is not None:
                sys.meta_path.remove(blocker)
                sys.modules.update(saved)
            loader.purge()
            ambient.guard().restore()
        return self.result(eng)

    def check_functions(self, plan, eng):
        if eng.aborting or eng.viol:
            return
        have = {k: v for k, v in sys.modules.items() if k == loader.PKG or k.startswith(loader.PKG + ".")}
        missing = [m for m in plan["order"] if m not in have]
        if missing:
            eng.violate("import", "after importing, module %s is not there" % missing[0])
            return
        w = loader.World.__new__(loader.World)
        w.modules = have
        for c in plan["calls"]:
            if w.get(c["f"]) is None or w.get("utils.preprocessing:SlidingWindow") is None:
                if loader.PKG + "." + c["f"].split(":")[0] in have and w.get(c["f"]) is None:
                    eng.violate("import", "after importing (%s), %s is missing" % (plan["mode"], c["f"]))
                continue
            r = engine.solo(c, world=w)
            want = engine.ref(c)
            eng.steps += r.nev
            if r.out != want.out and want.out[0] != "abort":
                eng.violate("import-outcome", "after importing (%s), %s gives %s %s instead of %s %s" % (plan["mode"], c["f"], r.out[0], r.brief, want.out[0], want.brief))


ALL2 = {c.id: c for c in (C07, C10, C11, C12, C14)}
