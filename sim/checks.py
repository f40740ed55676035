"""Workload generators and oracles for the properties decided on the scheduling engine."""
import copy, gc, os, random, sys
import numpy as np
from . import ambient, api, engine, gen, loader
from .digest import arrays_in, containers_in, digest

OUTCOME_NOTE = "differs from the same call alone in a fresh process"


class Check:
    id = None
    RUNS = {"quick": 400, "thorough": 8000}
    pool_n = 14
    chase_n = 400
    level = "exploration"
    hang_is_violation = True

    def __init__(self, pool, tier, seed):
        self.pool, self.tier, self.seed = pool, tier, seed

    def runs(self):
        return self.RUNS[self.tier]

    def rng(self, i):
        return gen.rng_for(self.seed, self.id, i)

    def plan(self, i):
        p = self.gen(self.rng(i), i)
        p["prop"], p["seed"], p["run"] = self.id, self.seed, i
        return p

    def monitor(self, plan):
        return engine.Mon()

    def execute(self, plan):
        """Run one plan; returns a result dict with the violations found."""
        ambient.guard().restore()
        engine.prepare(plan)
        eng = engine.Engine(plan, self.monitor(plan)).run()
        self.judge(eng)
        ambient.guard().restore()
        return self.result(eng)

    def result(self, eng):
        src = loader.source()
        ci = src.index
        return {"viol": eng.viol[:6], "steps": eng.steps, "sw": eng.switches, "fired": eng.fired, "calls": len(eng.recs),
                "fsites": [(k, ci.get(c, c), l) for k, c, l in eng.fsites],
                "inter": hash_log(eng.log), "log": eng.log if eng.plan.get("trace") else None,
                "nontrivial": self.nontrivial(eng)}

    def nontrivial(self, eng):
        return eng.switches > 0 or bool(eng.fired)

    def judge(self, eng):
        for r in eng.recs:
            self.judge_outcome(eng, r)

    def judge_outcome(self, eng, r, why=OUTCOME_NOTE):
        """Exact equality with the reference, for calls no fault disturbed."""
        if r.out is None or r.out[0] == "abort" or r.injected is not None or r.mem_failed:
            return
        if r.ref is not None and r.ref.out[0] != "abort" and r.out != r.ref.out:
            eng.violate("outcome", "%s: %s; got %s %s, alone %s %s" % (r.where(), why, r.out[0], r.brief or r.out[1], r.ref.out[0], r.ref.brief or r.ref.out[1]))

    def gen(self, rng, i):
        raise NotImplementedError

    # -- helpers for generators
    def first(self, i):
        """The first runs go through calls that together execute every line the pool reached."""
        return copy.deepcopy(self.pool.essential[i]) if i < len(self.pool.essential) else None

    def refs(self, plan):
        return engine.refs_of(plan)

    def share(self, rng, plan, p_buf=0.5):
        """Turn equal array/window arguments of the plan's calls into shared objects."""
        bufs, wins = plan.setdefault("bufs", {}), plan.setdefault("wins", {})
        names = {}
        for ops in plan["tasks"]:
            for op in ops:
                if "f" not in op:
                    continue
                for k, v in list(op["a"].items()):
                    if isinstance(v, dict) and v.get("$") == "arr":
                        kk = api.key(v)
                        if kk not in names and rng.random() < p_buf and len(bufs) < 6:
                            names[kk] = "b%d" % len(bufs)
                            bufs[names[kk]] = v
                        if kk in names:
                            op["a"][k] = {"$": "buf", "n": names[kk]}
                    elif isinstance(v, dict) and v.get("$") == "win":
                        kk = api.key(v)
                        if kk not in names and rng.random() < p_buf and len(wins) < 6:
                            names[kk] = "w%d" % len(wins)
                            wins[names[kk]] = list(v["v"])
                        if kk in names:
                            op["a"][k] = {"$": "winobj", "n": names[kk]}


def hash_log(log):
    import hashlib
    return hashlib.md5(repr(log).encode()).hexdigest()[:16]


def related(rng, pool, base, n, small=False):
    """n calls related to `base` in the ways that make shared state visible."""
    out = [copy.deepcopy(base)]
    while len(out) < n:
        w = rng.random()
        src = rng.choice(out)
        if w < 0.4:
            out.append(gen.other_data(rng, src))
        elif w < 0.65:
            if pool.stateful and rng.random() < 0.25:
                out.append(api.extreme(rng, src))
                continue
            nb = api.neighbours(rng, src, gen.ctx_like(rng, src))
            out.append(rng.choice(nb) if nb else copy.deepcopy(src))
        elif w < 0.75:
            out.append(copy.deepcopy(src))
        elif w < 0.9:
            out.append(gen.sibling(rng, pool, src))
        else:
            out.append(gen.some_call(rng, pool, small=small))
    return out


MAXEV = 40000


def affordable(call, cap=MAXEV):
    r = engine.ref(call)
    return r.nev <= cap


def base_call(rng, pool, small=False, p_main=0.75, cap=8000):
    for _ in range(10):
        w = rng.random()
        c = None
        if w < 0.25 and not small:
            c = pool.stateful_call(rng)
        elif w < 0.4 and not small:
            c = pool.hot_target(rng)
            c = c and c[0]
        elif w < 0.6 and not small and pool.order:
            c = pool.target(rng, rng.randrange(len(pool.order)))[0]
        c = c or gen.some_call(rng, pool, p_main, small=small)
        if engine.ref(c).nev <= cap:
            return c
    return c


# ================================================================== C01
class C01(Check):
    id = "C01"
    RUNS = {"quick": 2200, "thorough": 60000}

    def burst(self, rng, i):
        """One call suspended at a chosen line while another caller makes many similar calls; then it goes on."""
        tg = (self.pool.hot_target(rng) if rng.random() < 0.6 else None) or self.pool.target(rng, i)
        if tg is None:
            return None
        base, e = tg
        if not affordable(base, 9000):
            return None
        nb = api.neighbours(rng, base, gen.ctx_like(rng, base))
        rng.shuffle(nb)
        other = nb[:rng.choice([2, 5, 8])] + [gen.other_data(rng, base), gen.sibling(rng, self.pool, base)]
        other = [c for c in other if affordable(c, 9000)] or [base]
        rng.shuffle(other)
        e = max(1, e + rng.choice([0, 0, 0, 1, 1, 2, -1]))
        if rng.random() < 0.25:
            plan = {"tasks": [[base, copy.deepcopy(base)]], "main": rng.random() < 0.5, "faults": [{"t": 0, "o": 0, "at": e, "k": "re", "op": c} for c in other]}
        else:
            plan = {"tasks": [[base, copy.deepcopy(base)], other], "start": 0, "main": rng.random() < 0.3, "faults": [], "sw": [[0, 0, e, 1]]}
            if rng.random() < 0.3:              # and back again in the middle of one of them
                refs = self.refs(plan)
                o = rng.randrange(len(other))
                if refs[1][o].nev:
                    plan["sw"].append([1, o, gen.point(rng, refs[1][o], self.pool.hot), 0])
        self.share(rng, plan, rng.choice([0, 0.5, 1]))
        engine.prepare(plan)
        return plan

    def gen(self, rng, i):
        first = self.first(i)
        if first is None and rng.random() < 0.4:
            p = self.burst(rng, i)
            if p is not None:
                return p
        fine = first is None and rng.random() < 0.15
        small = first is None and (fine or rng.random() < 0.3)
        nt = rng.choice([1, 2, 2, 2, 3, 3, 4])
        base = first or base_call(rng, self.pool, small)
        per = rng.choice([1, 1, 2, 3])
        calls = related(rng, self.pool, base, nt * per, small)
        rng.shuffle(calls)
        plan = {"tasks": [[c for c in calls[t * per:(t + 1) * per]] for t in range(nt)], "start": rng.randrange(nt), "fine": fine,
                "main": rng.random() < 0.3, "faults": []}
        self.share(rng, plan, rng.choice([0, 0.5, 1]))
        refs = self.refs(plan)
        if nt > 1:
            plan["sw"] = gen.schedule(rng, refs, self.pool.hot if not fine else ())
        if nt == 1 or rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = rng.randrange(nt)
                o = rng.randrange(len(refs[t]))
                kind = rng.choice(["re", "re", "re", "gc", "stall"])
                f = {"t": t, "o": o, "at": gen.point(rng, refs[t][o], self.pool.hot), "k": kind}
                if kind == "re":
                    src = rng.choice(calls)
                    f["op"] = {"f": src["f"], "a": src["a"]} if rng.random() < 0.3 else api.canon(
                        gen.other_data(rng, api.canon(src, plan["bufs"], plan["wins"])), {}, {})
                plan["faults"].append(f)
            engine.prepare(plan)
        return plan


# ================================================================== C02
class HistoryMon(engine.Mon):
    """Keeps results so that the simulated caller can overwrite them."""

    def start(self, eng):
        eng.kept = []

    def op_end(self, eng, t, rec):
        # results that are the caller's own arguments (C08) are the caller's to keep intact
        if rec.out[0] == "ret" and not any(np.may_share_memory(a, b) for a in arrays_in(rec.value) for b in arrays_in(rec.kw)):
            eng.kept.append(rec.value)
            if len(eng.kept) > 6:
                eng.kept.pop(0)

    def act(self, eng, t, op):
        if op["act"] == "mut" and eng.kept:
            v = eng.kept[-1 - op.get("back", 0) % len(eng.kept)]
            for a in arrays_in(v):
                if a.flags.writeable and a.size and a.dtype.kind in "fciu":
                    a[...] = 77
            for c in containers_in(v):
                if isinstance(c, list) and c and not isinstance(c[0], (list, dict)):
                    c[:] = [0.125] * len(c)
                elif isinstance(c, dict):
                    for k in list(c):
                        if isinstance(c[k], (int, float)):
                            c[k] = -1.5
        elif op["act"] == "drop":
            eng.kept.clear()
            gc.collect()


class C02(Check):
    id = "C02"
    RUNS = {"quick": 700, "thorough": 20000}

    def monitor(self, plan):
        return HistoryMon()

    def nontrivial(self, eng):
        return len(eng.recs) > 1

    def gen(self, rng, i):
        w = rng.random()
        first = self.first(i)
        if first is not None:
            ops = self.mixed(rng, first)
        elif w < 0.08:
            ops = self.sweep(rng)
        elif w < 0.11:
            return {"tasks": [self.long(rng)], "main": rng.random() < 0.8}
        else:
            ops = self.mixed(rng)
        plan = {"tasks": [ops], "main": True}
        if rng.random() < 0.5:
            self.share(rng, plan, rng.choice([0.5, 1]))
            if plan["bufs"] and rng.random() < 0.8:
                self.refills(rng, plan)
        return plan

    def mixed(self, rng, base=None):
        base = base or base_call(rng, self.pool)
        n = rng.choice([4, 6, 10, 16])
        ops = []
        # one-parameter neighbours of one call, each followed now and then by the call itself
        if rng.random() < 0.6:
            nb = api.neighbours(rng, base, gen.ctx_like(rng, base))
            rng.shuffle(nb)
            ops.append(copy.deepcopy(base))
            for c in nb[:n]:
                ops.append(c)
                if rng.random() < 0.4:
                    ops.append(copy.deepcopy(base))
        else:
            ops = related(rng, self.pool, base, n)
            ops += [copy.deepcopy(c) for c in rng.sample(ops, min(3, len(ops)))]
        ops = [c for c in ops if affordable(c)]
        out = []
        for c in ops:
            if rng.random() < 0.12:
                out.append(api.invalidate(rng, c))
            out.append(c)
            if rng.random() < 0.12:
                out.append(api.typed(rng, c))
                if not affordable(out[-1]):
                    out.pop()
                elif rng.random() < 0.5:         # either one first
                    out[-2:] = out[:-3:-1]
            if rng.random() < 0.3:
                out.append({"act": "mut", "back": rng.choice([0, 0, 1, 2])})
                if rng.random() < 0.6:
                    out.append(copy.deepcopy(c))
            if rng.random() < 0.1:
                out.append({"act": "drop"})
        return out

    def long(self, rng):
        """Hundreds of calls of a few settings: what only shows after many calls."""
        f = gen.pick_function(rng, self.pool, 0.8)
        ctx = api.Ctx(rng, True)
        ctx.frames = 2
        base = api.gen_call(rng, f, ctx)
        few = [base] + [gen.other_data(rng, base) for _ in range(2)]
        nb = api.neighbours(rng, base, ctx)
        rng.shuffle(nb)
        few += nb[:rng.choice([0, 2, 6])]
        if rng.random() < 0.5:
            few += [gen.sibling(rng, self.pool, base) for _ in range(2)]
        if rng.random() < 0.3:
            few.append(api.invalidate(rng, base))
        few = [c for c in few if affordable(c, 2500)]
        if not few:
            return [base, copy.deepcopy(base)]
        cost = max(engine.ref(c).nev for c in few) + 60
        n = max(60, min(1100, 900000 // cost))
        return [copy.deepcopy(rng.choice(few)) for _ in range(n)]

    def sweep(self, rng):
        """More distinct settings of one function than a bounded cache holds, then the first ones again."""
        f = gen.pick_function(rng, self.pool, 0.6)
        ctx = api.Ctx(rng, True)
        ctx.frames = 2
        ops, seen = [], set()
        n = rng.choice([70, 140, 140, 280])
        ax = gen.axis(rng, f, rng.randrange(99)) if rng.random() < 0.5 else None
        for j in range(3 * n):
            if len(ops) >= n:
                break
            c = api.gen_call(rng, f, ctx)
            if ax:
                gen.step(ax, c, j)
            elif rng.random() < 0.8:
                nb = api.neighbours(rng, c, ctx)
                if nb:
                    c = rng.choice(nb)
            k = api.key(c)
            if k not in seen and affordable(c, 6000):
                seen.add(k)
                ops.append(c)
        back = ops[:6] + rng.sample(ops, min(len(ops), 8))
        rng.shuffle(back)
        return ops + [copy.deepcopy(c) for c in back]

    def refills(self, rng, plan):
        ops = plan["tasks"][0]
        out = []
        cur = dict(plan["bufs"])
        for op in ops:
            out.append(op)
            used = [v["n"] for v in op.get("a", {}).values() if isinstance(v, dict) and v.get("$") == "buf"]
            if used and rng.random() < 0.4:
                n = rng.choice(used)
                old = cur[n]
                new = dict(old)
                w = rng.random()
                if w < 0.35:
                    new["edit"] = rng.randrange(5, 9999)
                elif w < 0.5:
                    new["swap"] = rng.randrange(5, 9999)
                elif w < 0.6:
                    new["gain"] = new.get("gain", 1) * rng.choice([2.0, -1.0, 0.5])
                else:
                    new["s"] = new.get("s", 0) + 1 + rng.randrange(500)
                    if new["k"] in ("zeros", "quiet"):
                        new["k"] = "noise"
                cur[n] = new
                out.append({"act": "fill", "n": n, "spec": new})
                if rng.random() < 0.7:
                    out.append(copy.deepcopy(op))
            uw = [v["n"] for v in op.get("a", {}).values() if isinstance(v, dict) and v.get("$") == "winobj"]
            if uw and rng.random() < 0.3:
                v = list(plan["wins"][uw[0]])
                j = rng.randrange(3)
                if j == 2:
                    v[2] = rng.choice(api.WIN_TYPES)
                else:
                    v[j] = v[j] * rng.choice([1.2, 0.9])
                out.append({"act": "win", "n": uw[0], "v": v})
                out.append(copy.deepcopy(op))
        plan["tasks"][0] = out


# ================================================================== C03
def ultimate(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def copied(v):
    return [copied(x) for x in v] if type(v) is list else v


def same_list(a, b):
    return len(a) == len(b) and all(same_list(x, y) if type(x) is list and type(y) is list else x is y for x, y in zip(a, b))


class ArgMon(engine.Mon):
    """Compares every caller-owned object with its original content at every event."""

    def start(self, eng):
        self.eng = eng
        self.checks = 0

    def op_start(self, eng, t, rec, kw):
        w = []
        for k, v in kw.items():
            if isinstance(v, np.ndarray):
                u = ultimate(v)
                w.append((k, v, u, u.tobytes(), (v.shape, v.strides, v.dtype.str, v.flags.writeable)))
            elif isinstance(v, list):
                w.append((k, v, None, copied(v), None))
            elif hasattr(v, "win_len"):
                w.append((k, v, None, dict(vars(v)), "win"))
        t.args = w
        rec.extra = None
        t.bad = False

    def watch(self, t):
        self.checks += 1
        for k, v, u, orig, meta in t.args:
            if u is not None:
                if u.tobytes() != orig or (v.shape, v.strides, v.dtype.str, v.flags.writeable) != meta:
                    return self.bad(t, k, "during")
            elif meta == "win":
                if vars(v) != orig:
                    return self.bad(t, k, "during")
            elif not same_list(v, orig):
                return self.bad(t, k, "during")

    def bad(self, t, k, when):
        if not t.bad:
            t.bad = True
            self.eng.violate("arg-written", "argument %r of %s changed %s the call (seen at %s)" % (k, t.rec.where(), when, self.eng.site(t)))

    def op_end(self, eng, t, rec):
        saved = t.rec
        t.rec = rec
        for k, v, u, orig, meta in t.args:
            if u is not None:
                if u.tobytes() != orig or (v.shape, v.strides, v.dtype.str, v.flags.writeable) != meta:
                    self.bad(t, k, "by")
            elif meta == "win":
                if vars(v) != orig:
                    self.bad(t, k, "by")
            elif not same_list(v, orig):
                self.bad(t, k, "by")
        t.rec = saved
        t.args = []


class C03(Check):
    id = "C03"
    RUNS = {"quick": 5000, "thorough": 80000}

    def monitor(self, plan):
        return ArgMon()

    def nontrivial(self, eng):
        return eng.mon.checks > 0

    def gen(self, rng, i):
        fine = rng.random() < 0.2
        nt = rng.choice([1, 1, 1, 2])
        fs = self.pool.functions()
        w = rng.random()
        tg = self.pool.target(rng, i)
        first = self.first(i)
        if first is None and rng.random() < 0.5:
            # how arguments are stored, combined freely: a few calls in a row, undisturbed
            calls = []
            for j in range(5):
                c = gen.grid(rng, self.pool, fs[(i * 5 + j) % len(fs)])
                if affordable(c, 12000):
                    calls.append(c)
            if calls:
                return {"tasks": [calls], "fine": False, "main": True, "faults": []}
        if first is not None:
            base, fine = first, False
        elif w < 0.45 and tg:
            base = tg[0]
        elif w < 0.7:
            f = fs[i % len(fs)]
            base = gen.some_call(rng, self.pool, f=f, small=fine)
        else:
            base = base_call(rng, self.pool, fine, cap=4000 if fine else 25000)
        if fine and engine.ref(base).nev > 3000:
            fine = False
        if first is None and "fbanks" in dict(api.API[base["f"]]) and rng.random() < 0.5:
            base["a"]["fbanks"] = api.fbanks_for(rng, base["a"])
        # writable and read-only versions of the same arguments, all layouts
        for v in base["a"].values():
            if first is None and isinstance(v, dict) and v.get("$") == "arr" and rng.random() < 0.6:
                if rng.random() < 0.2 and v["k"] in ("noise", "pos", "tone", "unit"):
                    v["k"] = "sparse"
                if isinstance(v["n"], list):
                    v["lay"] = rng.choice(["C", "C", "F", "F", "ro", "str"])
                    if rng.random() < 0.3:
                        v["ro"] = 1
                else:
                    v["lay"] = rng.choice(["C", "C", "ro", "str", "rev", "emb"] + (["list", "col"] if "sig" in base["a"] else []))
                    if rng.random() < 0.08:
                        v["n"] = rng.choice([1, 2, 7, 30, v["n"] // 3 + 1])
        calls = [base] + [gen.other_data(rng, base) for _ in range(nt - 1)]
        plan = {"tasks": [[c] for c in calls], "fine": fine, "main": nt == 1, "faults": []}
        if nt > 1:
            for c in calls:
                c["a"] = copy.deepcopy(base["a"]) if rng.random() < 0.5 else c["a"]
        self.share(rng, plan, 1 if nt > 1 else 0.3)
        refs = self.refs(plan)
        if nt > 1:
            plan["sw"] = gen.schedule(rng, refs, self.pool.hot)
        if rng.random() < 0.45:
            t = rng.randrange(nt)
            r = refs[t][0]
            k = rng.choice(["kbd", "alarm", "mem", "kbd"])
            at = gen.place(rng, r, k, self.pool.hot)
            if at is not None:
                plan["faults"].append({"t": t, "o": 0, "at": at, "k": k})
        return plan

    def execute(self, plan):
        # read-only arguments must behave like writable ones
        for ops in plan["tasks"]:
            for op in ops:
                c = api.canon(op, plan.get("bufs"), plan.get("wins"))
                if self.readonly(c):
                    engine.ref(self.writable(c))
        return super().execute(plan)

    def readonly(self, c):
        return any(isinstance(v, dict) and (v.get("lay") == "ro" or v.get("ro")) for v in c["a"].values())

    def writable(self, c):
        c = copy.deepcopy(c)
        for v in c["a"].values():
            if isinstance(v, dict):
                v.pop("ro", None)
            if isinstance(v, dict) and v.get("lay") == "ro":
                v["lay"] = "C"
        return c

    def judge(self, eng):
        for r in eng.recs:
            if self.readonly(r.call):
                if r.injected is None and not r.mem_failed and r.out[0] != "abort":
                    w = engine.ref(self.writable(r.call))
                    if w.out != r.out and w.out[0] != "abort":
                        eng.violate("readonly", "%s: read-only arguments give %s %s, writable ones %s %s" % (r.where(), r.out[0], r.brief or r.out[1], w.out[0], w.brief))


# ================================================================== C04
KINDS4 = ["alarm", "mem", "kbd", "exit"]


class C04(Check):
    id = "C04"
    RUNS = {"quick": 1900, "thorough": 50000}

    def gen(self, rng, i):
        """A few calls, each struck by one fault: every line of the package in turn, lines that guard or hold
        state more often, and random places."""
        fs = self.pool.functions()
        main = [f for f in fs if f in api.MAIN]
        fine = rng.random() < 0.12
        ops, faults = [], []
        for o in range(4):
            k = KINDS4[(i * 3 + o) // max(1, len(self.pool.order)) % 4] if not fine else rng.choice(KINDS4)
            w = rng.random()
            e = tg = None
            if not fine:
                if o < 3:
                    tg = self.pool.target(rng, i * 3 + o)
                elif w < 0.7:
                    tg = self.pool.hot_target(rng)
                    k = rng.choice(KINDS4)
            if tg is not None:
                c, e = tg
            else:
                k = rng.choice(KINDS4)
                f = fs[(i + o * 17) % len(fs)] if rng.random() < 0.4 else rng.choice(main or fs)
                c = gen.fresh(rng, self.pool, f, small=True) if fine else (self.pool.pick(rng, f) if rng.random() < 0.7 else gen.fresh(rng, self.pool, f))
            r = engine.ref(c)
            if r.nev < 1 or r.nev > 15000:
                continue
            if fine:
                if r.nev > 2500:
                    continue
                r = engine.ref(c, True)
            at = gen.place(rng, r, k, self.pool.hot if not fine else (), e)
            if at is None:
                continue
            o = len(ops)
            ops.append(c)
            faults.append({"t": 0, "o": o, "at": at, "k": k})
            if k == "mem" and rng.random() < 0.1:
                faults.append({"t": 0, "o": o, "at": gen.point(rng, r), "k": "kbd"})
        plan = {"tasks": [ops], "fine": fine, "main": rng.random() < 0.5, "faults": faults}
        return plan

    def nontrivial(self, eng):
        return bool(eng.fired)

    def judge(self, eng):
        for r in eng.recs:
            if r.out[0] == "abort":
                continue
            if r.injected is not None:
                if r.out[0] == "inj" or r.deferred and r.out[0] == "exc" and r.hit[0]["k"] == "kbd" and "KeyboardInterrupt" in r.brief:
                    continue
                eng.violate("swallowed", "%s: %s raised at %s did not reach the caller; the call %s %s" % (
                    r.where(), type(r.injected).__name__, r.extra, "returned" if r.out[0] == "ret" else "raised", r.brief or r.out[1]))
            elif r.mem_failed:
                if r.out[0] == "ret" and r.ref is not None and r.ref.out[0] != "abort" and r.out != r.ref.out:
                    eng.violate("degraded", "%s: allocation %s failed inside the call, which then returned %s instead of %s" % (
                        r.where(), [h["at"] for h in r.hit if h["k"] == "mem"], r.brief, r.ref.brief))


# ================================================================== C05
class C05(Check):
    id = "C05"
    RUNS = {"quick": 1300, "thorough": 40000}

    def monitor(self, plan):
        return HistoryMon()

    def nontrivial(self, eng):
        return any(k in eng.fired for k in ("kbd", "alarm", "exit", "kill", "mem"))

    def gen(self, rng, i):
        fine = rng.random() < 0.1
        where = None
        tg = None
        w = rng.random()
        first = self.first(i)
        if first is not None:
            fine, tg = False, (first, None)
        elif not fine and w < 0.7:
            tg = (self.pool.hot_target(rng) if w < 0.35 else None) or self.pool.target(rng, i)
        if tg is not None and affordable(tg[0], 12000 if first is None else 60000):
            base, where = tg
        else:
            base = base_call(rng, self.pool, fine, cap=2500 if fine else 10000)
        nt = rng.choice([1, 1, 1, 2, 3])
        tasks, faults = [], []
        for t in range(nt):
            calls = related(rng, self.pool, base, rng.choice([1, 2, 3]), fine)
            calls = [c for c in calls if affordable(c, 3000 if fine else 20000)] or [base]
            ops = []
            struck = []
            for c in calls:
                if rng.random() < 0.75 or (where is not None and not ops):
                    struck.append(len(ops))
                ops.append(c)
                if rng.random() < 0.2:       # struck again
                    struck.append(len(ops))
                    ops.append(copy.deepcopy(c))
            tail = [copy.deepcopy(c) for c in calls]
            for c in list(tail):
                if rng.random() < 0.6:
                    tail.append(gen.other_data(rng, c))
                if rng.random() < 0.4:
                    nb = api.neighbours(rng, c, gen.ctx_like(rng, c))
                    if nb:
                        tail.append(rng.choice(nb))
                if rng.random() < 0.3:
                    tail.append(gen.sibling(rng, self.pool, c))
            tail = [c for c in tail if affordable(c, 3000 if fine else 20000)]
            tasks.append((ops, struck, tail))
        plan = {"tasks": [o + tl for o, s, tl in tasks], "fine": fine, "main": nt == 1 and rng.random() < 0.5, "faults": faults,
                "start": rng.randrange(nt)}
        self.share(rng, plan, rng.choice([0, 0.5]))
        refs = self.refs(plan)
        if nt > 1:
            plan["sw"] = gen.schedule(rng, refs, self.pool.hot)
        for t, (ops, struck, tail) in enumerate(tasks):
            for o in struck:
                r = refs[t][o]
                k = rng.choice(["kbd", "alarm", "exit", "mem", "mem", "kbd"] + (["kill"] if nt > 1 else []))
                e = where if t == 0 and o == 0 and not fine and rng.random() < 0.7 else None
                at = gen.place(rng, r, k, self.pool.hot, e)
                if at is not None:
                    faults.append({"t": t, "o": o, "at": at, "k": k})
        return plan

    def judge(self, eng):
        for r in eng.recs:
            self.judge_outcome(eng, r, "after an abandoned call, " + OUTCOME_NOTE)


# ================================================================== C06
class AmbientMon(engine.Mon):
    def start(self, eng):
        self.eng = eng
        self.world = eng.world
        ambient.vary(eng.plan.get("vary"))
        self.c0 = ambient.cheap()
        self.m0 = ambient.medium()
        self.mod0 = ambient.modules(eng.world)
        self.val0 = ambient.spafe_public_values(eng.world)
        self.rc0 = ambient.rc()
        self.every = eng.plan.get("every", 37)
        self.reported = set()
        self.checks = 0
        self.n = 0

    def op_start(self, eng, t, rec, kw):
        if not rec.sub and rec.o == 0:
            ambient.vary_thread(eng.plan.get("vary"))
        t.tw = ambient.thread_wide() if not rec.sub else None

    def watch(self, t):
        self.checks += 1
        self.n += 1
        c = ambient.cheap()
        if c != self.c0:
            names = "filters-list filters showwarning recursion gc gc-threshold switch-interval stdout stderr bytecode log-level log-disable log-handlers cwd env-size environ".split()
            self.bad("process-wide", [n for n, a, b in zip(names, self.c0, c) if a != b], "during " + t.rec.where() + " at " + self.eng.site(t))
        elif self.n % self.every == 0 or t.ev == t.rec.ref.nev:
            self.medium("during " + t.rec.where() + " at " + self.eng.site(t))

    def medium(self, when):
        d = ambient.diff(self.m0, ambient.medium())
        if d:
            self.bad("process-wide", d, when)

    def bad(self, kind, names, when):
        k = (kind, tuple(names[:3]))
        if names and k not in self.reported:
            self.reported.add(k)
            self.eng.violate("setting:" + kind, "%s setting(s) %s changed %s" % (kind, ", ".join(map(str, names[:5])), when))

    def switched(self, eng, t):
        self.medium("while suspended, " + t.rec.where())

    def op_end(self, eng, t, rec):
        if rec.out[0] == "abort":
            return
        when = "after %s (%s)" % (rec.where(), rec.out[0])
        if t.tw is not None:
            self.bad("thread-wide", ambient.diff(t.tw, ambient.thread_wide()), when)
        self.medium(when)
        self.bad("library attribute", ambient.public_module_changes(self.mod0, ambient.modules(self.world)), when)
        v = ambient.spafe_public_values(self.world)
        self.bad("package value", [k for k in self.val0 if self.val0[k] != v.get(k)], when)
        r = ambient.rc()
        if r is not None and self.rc0 is not None:
            self.bad("plotting default", ambient.diff(self.rc0, r), when)


class C06(Check):
    id = "C06"
    RUNS = {"quick": 1100, "thorough": 24000}

    def monitor(self, plan):
        return AmbientMon()

    def nontrivial(self, eng):
        return eng.mon.checks > 0

    def gen(self, rng, i):
        nt = rng.choice([1, 1, 2, 2, 3])
        fs = self.pool.functions()
        w = rng.random()
        where = tg = None
        first = self.first(i)
        if first is not None:
            base, nt = first, min(nt, 2)
        elif w < 0.3:
            base = self.pool.cover(rng, i)
        elif w < 0.7:
            tg = (self.pool.hot_target(rng) if w < 0.55 else None) or self.pool.target(rng, i)
            base, where = tg if tg else (base_call(rng, self.pool), None)
        else:
            base = base_call(rng, self.pool)
        if first is None and engine.ref(base).nev > 9000:
            base = base_call(rng, self.pool, True)
            where = None
        per = rng.choice([1, 2])
        calls = related(rng, self.pool, base, nt * per)
        calls = [(c if affordable(c, 9000) else base) for c in calls]
        calls = [api.invalidate(rng, c) if rng.random() < 0.15 and (j or (where is None and first is None)) else c for j, c in enumerate(calls)]
        plan = {"tasks": [calls[t * per:(t + 1) * per] for t in range(nt)], "main": nt == 1 or rng.random() < 0.3, "faults": [], "every": rng.choice([3, 11, 37]), "vary": rng.choice([0, 1, 2, 3])}
        refs = self.refs(plan)
        if nt > 1:
            plan["sw"] = gen.schedule(rng, refs, self.pool.hot)
        if first is None and (rng.random() < 0.5 or where is not None):
            for j in range(rng.choice([1, 2])):
                t, o = (0, 0) if where is not None and j == 0 else (rng.randrange(nt), rng.randrange(per))
                if o >= len(refs[t]):
                    continue
                r = refs[t][o]
                k = rng.choice(["kbd", "alarm", "exit", "mem"])
                e = where if (t, o) == (0, 0) else None
                at = gen.place(rng, r, k, self.pool.hot, e)
                if at is not None:
                    plan["faults"].append({"t": t, "o": o, "at": at, "k": k})
        return plan

    def judge(self, eng):
        pass


# ================================================================== C08
class AliasMon(engine.Mon):
    def start(self, eng):
        self.eng = eng
        self.live = []      # (rec, value, arrays, digest, containers)
        self.args = []
        self.compared = 0
        eng.kept = []

    def exempt(self, rec, result_arrays, kw):
        """Liftering with a factor that does nothing may hand back its argument."""
        if rec.op["f"] != "utils.cepstral:lifter_ceps":
            return False
        lift = rec.op["a"].get("lift", 3)
        return lift == 0 or lift > 10

    def op_end(self, eng, t, rec):
        if rec.out[0] != "ret":
            return
        v = rec.value
        arrs = arrays_in(v)
        cont = containers_in(v)
        ex = self.exempt(rec, arrs, rec.kw)
        if not ex:
            for k, a in rec.kw.items():
                if isinstance(a, np.ndarray):
                    for x in arrs:
                        self.compared += 1
                        if overlap(x, a):
                            self.bad("aliases-argument", rec, "its result shares memory with argument %r" % k)
                elif isinstance(a, (list, dict)):
                    if any(c is a for c in cont):
                        self.bad("aliases-argument", rec, "its result contains argument %r itself" % k)
        for i in range(len(arrs)):
            for j in range(i):
                if arrs[i] is not arrs[j] and overlap(arrs[i], arrs[j]):
                    self.bad("aliases-itself", rec, "two arrays of its result share memory")
        if arrs and not ex and eng.world is not None:
            for h in loader.held(eng.world):
                for x in arrs:
                    if x.size and h.size and (x is h or overlap(x, h)):
                        self.bad("aliases-state", rec, "its result shares memory with an array kept inside the library")
                        break
        for other, oarrs, ocont, _ in self.live:
            for x in arrs:
                for y in oarrs:
                    self.compared += 1
                    if x.size and y.size and (x is y or overlap(x, y)):
                        if not ex:
                            self.bad("aliases-result", rec, "its result shares memory with the result of op %d of task %d (%s)" % (other.o, other.t, other.op["f"]))
            if any(c is d for c in cont for d in ocont):
                self.bad("aliases-result", rec, "its result shares a container with that of op %d (%s)" % (other.o, other.op["f"]))
        if not ex:
            self.live.append((rec, arrs, cont, None))
            self.live = self.live[-8:]
            eng.kept.append((rec, v, dict(rec.kw)))
            eng.kept = eng.kept[-8:]

    def bad(self, cls, rec, what):
        if len(self.eng.viol) < 6:
            self.eng.violate(cls, "%s: %s" % (rec.where(), what))

    def act(self, eng, t, op):
        if not eng.kept:
            return
        i = -1 - op.get("back", 0) % len(eng.kept)
        rec, v, kw = eng.kept[i]
        if op["act"] == "mutres":
            # write into a result: no argument and no other result may change
            others = [(r, x, digest(x)) for r, x, _ in eng.kept if r is not rec]
            argd = {k: digest(a) for k, a in kw.items()}
            for a in arrays_in(v):
                if a.size and a.dtype.kind in "fciu":
                    if not a.flags.writeable:
                        self.bad("not-owned", rec, "its result is read-only: the caller cannot use it as its own")
                        continue
                    a[...] = 55
            for c in containers_in(v):
                if isinstance(c, list):
                    c.append(1)
                elif isinstance(c, dict):
                    c["_sim"] = 1
            for r, x, d in others:
                if digest(x) != d:
                    self.bad("write-through", rec, "writing into its result changed the result of op %d (%s)" % (r.o, r.op["f"]))
            for k, a in kw.items():
                if digest(a) != argd[k]:
                    self.bad("write-through", rec, "writing into its result changed argument %r" % k)
            for c in containers_in(v):
                if isinstance(c, list):
                    c.pop()
                elif isinstance(c, dict):
                    c.pop("_sim", None)
        elif op["act"] == "mutarg":
            d = digest(v)
            undo = []
            for k, a in kw.items():
                if isinstance(a, np.ndarray) and a.size and a.dtype.kind in "fciu":
                    u = ultimate(a)
                    w = u.flags.writeable
                    try:
                        u.flags.writeable = True
                    except ValueError:
                        continue
                    undo.append((u, u.copy(), w))
                    u[...] = 33
                elif isinstance(a, list):
                    undo.append((a, list(a), None))
                    a[:] = [33.0] * len(a)
            if digest(v) != d:
                self.bad("write-through", rec, "overwriting its arguments after the call changed its result")
            for u, c, w in undo:
                u[:] = c
                if w is False:
                    u.flags.writeable = False


def overlap(x, y):
    if not np.may_share_memory(x, y):
        return False
    try:
        return np.shares_memory(x, y, max_work=200000)
    except Exception:
        return True


class C08(Check):
    id = "C08"
    RUNS = {"quick": 2500, "thorough": 40000}

    def monitor(self, plan):
        return AliasMon()

    def nontrivial(self, eng):
        return eng.mon.compared > 0

    def gen(self, rng, i):
        nt = rng.choice([1, 1, 1, 2])
        fs = self.pool.functions()
        first = self.first(i)
        if first is None and rng.random() < 0.4:
            # every function with every kind of argument storage: twice, and again after the results were overwritten
            ops = []
            for j in range(4):
                c = gen.grid(rng, self.pool, fs[(i * 4 + j) % len(fs)])
                if affordable(c, 6000):
                    ops += [c, copy.deepcopy(c) if rng.random() < 0.5 else gen.tweak(rng, copy.deepcopy(c)), {"act": "mutarg", "back": 0}, {"act": "mutres", "back": 1}, {"act": "mutres", "back": 0}, copy.deepcopy(c)]
            if ops:
                plan = {"tasks": [ops], "main": True}
                if all(affordable(c, 20000) for c in ops if "f" in c):
                    return plan
        base = first or (self.pool.cover(rng, i) if rng.random() < 0.5 else base_call(rng, self.pool))
        for k, v in base["a"].items():     # alias-prone values: nothing to convert, nothing to scale
            if first is None and isinstance(v, dict) and v.get("$") == "arr" and rng.random() < 0.6 and v["k"] != "cplx":
                v["dt"] = "float64"
                v["lay"] = rng.choice(["C", "C", "F" if isinstance(v["n"], list) else "C"])
                v.pop("gain", None)
        if first is None and "pre_emph" in dict(api.API[base["f"]]) and rng.random() < 0.4:
            base["a"]["pre_emph"] = False
        tasks = []
        for t in range(nt):
            calls = related(rng, self.pool, base, rng.choice([2, 3, 5]))
            calls = [c for c in calls if affordable(c, 15000 if first is None else 60000)]
            ops = []
            for c in calls:
                ops.append(c)
                if rng.random() < 0.35:
                    ops.append({"act": "mutarg", "back": 0})
                if rng.random() < 0.5:
                    ops.append({"act": "mutres", "back": rng.choice([0, 0, 1])})
                    if rng.random() < 0.7:
                        ops.append(copy.deepcopy(c))
            tasks.append(ops)
        plan = {"tasks": tasks, "main": nt == 1}
        self.share(rng, plan, rng.choice([0, 0.7]) if nt == 1 else 0)
        refs = self.refs(plan)
        if nt > 1:
            plan["sw"] = gen.schedule(rng, refs, self.pool.hot)
        return plan

    def judge(self, eng):
        for r in eng.recs:
            self.judge_outcome(eng, r, "after earlier results were overwritten, " + OUTCOME_NOTE)


# ================================================================== C09
class ProgressMon(engine.Mon):
    def start(self, eng):
        self.eng = eng
        self.waits0 = engine.SEAMS.lock_waits
        self.slept0 = engine.SEAMS.clock.slept

    def op_end(self, eng, t, rec):
        s = engine.SEAMS
        waited = s.lock_waits - self.waits0
        slept = s.clock.slept - self.slept0
        if (waited or slept) and not eng.stall_checked:
            others = [u for u in eng.tasks if u is not t and (u.stalled or u.dead)]
            if others or any(r.injected is not None for r in eng.recs):
                eng.stall_checked = True
                eng.violate("waits", "%s waited (%d lock waits, %.3f simulated seconds asleep) because of a call that is %s" % (
                    rec.where(), waited, slept, "stalled" if any(u.stalled for u in others) else "abandoned"))
        self.waits0, self.slept0 = s.lock_waits, s.clock.slept


class C09(Check):
    id = "C09"
    RUNS = {"quick": 2400, "thorough": 50000}

    def monitor(self, plan):
        return ProgressMon()

    def nontrivial(self, eng):
        return bool(eng.plan.get("noref")) or any(k in eng.fired for k in ("stall", "kbd", "alarm", "kill", "re"))

    def odd_contents(self, rng, i):
        """Calls on numbers nobody expects: they have to end too, within 40 times the work on ordinary ones."""
        es, fs = self.pool.essential, self.pool.functions()
        ops = []
        for j in range(8):
            f = fs[(7 * i + j) % len(fs)]
            c = es[i % len(es)] if j == 7 else self.pool.pick(rng, f) if j % 2 else gen.fresh(rng, self.pool, f, small=True)
            c = copy.deepcopy(c)
            twin = copy.deepcopy(c)
            arrs = [k for k, v in c["a"].items() if isinstance(v, dict) and v.get("$") == "arr" and v["k"] != "cplx"]
            if not arrs:
                continue
            for k in arrs:
                twin["a"][k]["k"] = "noise"
                if k == arrs[i % len(arrs)] or rng.random() < 0.5:
                    c["a"][k].update(k="odd", s=rng.randrange(6000))
                    c["a"][k].pop("gain", None), c["a"][k].pop("peak", None)
            if engine.ref(twin).nev <= 10000:
                ops.append(c)
        return {"tasks": [ops], "noref": True, "main": True, "faults": []} if ops else None

    def gen(self, rng, i):
        if i >= len(self.pool.essential) and i % 3 == 0:
            p = self.odd_contents(rng, i // 3)
            if p is not None:
                return p
        nt = rng.choice([1, 2, 2, 3])
        w = rng.random()
        where = tg = None
        first = self.first(i)
        if first is not None:
            tg = (first, None)
        elif w < 0.6:
            tg = (self.pool.hot_target(rng) if w < 0.3 else None) or self.pool.target(rng, i)
        if tg is not None and affordable(tg[0], 12000 if first is None else 60000):
            base, where = tg
        else:
            base = base_call(rng, self.pool, cap=9000)
        tasks = []
        for t in range(nt):
            calls = related(rng, self.pool, base, rng.choice([1, 2, 3]))
            calls = [c if affordable(c, 12000) else base for c in calls]
            if rng.random() < 0.5:
                calls.append(copy.deepcopy(calls[0]))
            tasks.append(calls)
        plan = {"tasks": tasks, "faults": [], "start": 0}
        refs = self.refs(plan)
        if nt > 1 and rng.random() < 0.5:
            plan["sw"] = gen.schedule(rng, refs, self.pool.hot)
        n = rng.choice([1, 1, 2])
        for j in range(n):
            t = 0 if j == 0 else rng.randrange(nt)
            o = 0 if rng.random() < 0.5 or (where is not None and j == 0) else rng.randrange(len(refs[t]))
            r = refs[t][o]
            if not r.nev:
                continue
            k = rng.choice(["stall", "stall", "kill", "re"] if nt > 1 else ["kbd", "alarm", "re", "re"])
            f = {"t": t, "o": o, "at": where if where is not None and j == 0 else gen.point(rng, r, self.pool.hot), "k": k}
            if k == "re":
                f["op"] = copy.deepcopy(rng.choice(rng.choice(tasks)))
            plan["faults"].append(f)
        engine.prepare(plan)
        return plan

    def judge(self, eng):
        pass        # the engine itself reports deadlock, waiting on stalled calls and runaway calls


# ================================================================== C13
POISONS = [[0x7FF8DEADBEEF0001, 0, 64, 0], [0x4141414141414141, 0, 256, 8], [0x4045000000000001, 0x10000000000, 4096, 16],
           [0xFFFFFFFFFFFFFFFF, 0, 512, 24], [0x0000000100000002, 0x0101010101010101, 1024, 40], [0xC08F400000000003, 0x1000001, 32768, 0],
           [0x3FF0000000000000, 0, 64, 32], [0x7FEFFFFFFFFFFFFF, 0, 128, 48]]


class C13(Check):
    id = "C13"
    RUNS = {"quick": 3500, "thorough": 60000}

    def nontrivial(self, eng):
        return True

    def gen(self, rng, i):
        fs = self.pool.functions()
        w = rng.random()
        first = self.first(i)
        if first is not None:
            c = first
        elif w < 0.4:
            c = self.pool.cover(rng, i)
        else:
            c = base_call(rng, self.pool, cap=40000)
        c = copy.deepcopy(c)
        s = c["a"].get("sig") or c["a"].get("a")
        if first is None and isinstance(s, dict) and rng.random() < 0.3:
            w = rng.random()
            s.pop("lay", None)
            if w < 0.35 and isinstance(s["n"], int):
                s["n"] = [s["n"], 2]                 # two channels
            elif w < 0.5 and isinstance(s["n"], int):
                s["n"] = [2, s["n"]]
            elif w < 0.65:
                s["lay"] = "row"
            elif isinstance(s["n"], int):
                s["n"] = rng.choice([1, 2, 5, 17, max(1, s["n"] // 2), max(1, s["n"] - 1), s["n"] + 1])
        w = rng.random() if first is None else 1
        if w < 0.15:
            c = api.invalidate(rng, c)
        elif w < 0.45:
            c = api.extreme(rng, c)
        po = list(rng.choice(POISONS))
        if rng.random() < 0.5:
            po = [rng.getrandbits(64), rng.choice([0, rng.getrandbits(60)]), rng.choice([64, 512, 4096, 32768]), rng.choice([0, 8, 16, 24, 32, 40, 48, 56])]
        elif rng.random() < 0.4:
            po[0] = rng.choice([0x7FF8000000000000, 0x7FF0000000000000, 0xFFF0000000000000])      # nothing hides not-a-number or infinity
            po[1] = 0
        ops = [c]
        if rng.random() < 0.3:
            c2 = gen.other_data(rng, c)
            ops.append(c2)
        for _ in range(1 if first is None and engine.ref(c).nev > 3000 else 3):      # the same sizes with zeros, plateaus, holes
            c2 = copy.deepcopy(c)
            for v in c2["a"].values():
                if isinstance(v, dict) and v.get("$") == "arr":
                    v["k"] = rng.choice(["zeros", "odd", "sparse", "half", "impulse", "const", "noise", "int"]) if v["k"] not in ("cplx", "cplxz") else "cplxz"
                    v["s"] = rng.randrange(6000)
            ops.append(c2)
        plan = {"tasks": [ops], "main": True, "amb": {"poison": po}, "faults": []}
        for ops_ in plan["tasks"]:
            for op in ops_:
                for v in op["a"].values():
                    if isinstance(v, dict) and v.get("lay") == "emb":
                        v["sur"] = 7
        self.refs(plan)
        return plan

    def execute(self, plan):
        g0 = engine.alloc.stats()[1] if engine.alloc else 0
        res = super().execute(plan)
        gc_hits = engine.alloc.stats()[1] - g0
        if gc_hits:
            res["viol"].append(("oob-write", "%d array(s) had bytes written outside their bounds" % gc_hits))
        return res

    def judge(self, eng):
        p = eng.plan["amb"]["poison"]
        for r in eng.recs:
            self.judge_outcome(eng, r, "with other contents in freshly allocated memory (pattern %#x, guard %d bytes, offset %d), %s" % (p[0], p[2], p[3], OUTCOME_NOTE))


ALL = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C08, C09, C13)}
