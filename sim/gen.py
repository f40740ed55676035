"""Seeded generation of calls, schedules and fault placements."""
import copy, inspect, random
from . import api, engine, loader

BOUNDS = {"nfft": (16, 4096), "nfilts": (2, 96), "num_ceps": (1, 60), "fs": (1000, 96000), "order": (2, 30), "low_freq": (0, 2000),
          "high_freq": (500, 24000), "n": (60, 70000), "nceps": (1, 40), "fb": (-5, 30), "fc": (0, 30), "f": (0, 20000), "fm": (0, 4000), "fe": (0, 45),
          "lift": (-40, 40), "lifter": (-40, 40), "tau_max": (2, 400), "tau_min": (0, 100), "tau": (2, 400), "w": (1, 99), "M": (0, 50), "N": (0, 50), "f0": (20, 2000),
          "stride_length": (1, 5000), "stride_step": (1, 2000), "lower_cutoff": (1, 2000), "upper_cutoff": (50, 20000), "min_freq": (0, 2000), "max_freq": (100, 24000),
          "number_of_octaves": (1, 8), "number_of_bins_per_octave": (1, 30), "i": (0, 9), "p": (1, 9), "threshold": (0, 100), "frame_len": (1, 2000)}
FLOATS = {"low_freq", "high_freq", "fb", "fc", "f", "fm", "fe", "lift", "lifter", "f0", "lower_cutoff", "upper_cutoff", "min_freq", "max_freq", "threshold"}


def rng_for(*parts):
    return random.Random("/".join(map(str, parts)))


def reached(r):
    """Lines and ways out of jumps that a reference run took."""
    return set(r.sites or ()) | set(r.edges or ())


class Pool:
    """Calls covering the package's reachable lines, with their reference traces."""

    def __init__(self, seed):
        self.seed = seed
        self.consts = [c for c in loader.constants() if abs(c) >= 2]
        self.calls = {}            # function -> list of calls
        self.covered = set()
        self.env = []              # environment variables the package looks at or names
        self.world = loader.World()
        self.hot = loader.hot_lines(self.world) | loader.guarded_lines()
        self.state0 = loader.state(self.world)
        self.stateful = []         # calls that leave something behind in the package's modules
        self.sites = {}            # line -> [(call, first event there)]
        self.order = []            # lines in a seeded order
        self.hot_sites = []
        self.essential = []        # few calls that together reach all the lines and ways out of jumps the pool reached

    def functions(self):
        return [f for f in api.API if self.world.get(f) is not None]

    def candidates(self, f, n):
        rng = rng_for(self.seed, "pool", f)
        out = [{"f": f, "a": minimal(rng, f)}]
        while len(out) < n:
            c = fresh(rng, self, f)
            if rng.random() < 0.12:
                c = api.invalidate(rng, c)
            out.append(c)
        return out

    def build_one(self, f, n):
        """Keep the calls that reach a new line of the package; returns [(call, Ref)]."""
        seen, kept, spare = set(), [], []
        for c in self.candidates(f, n):
            r = engine.ref(c)
            if r.nev > 60000:
                continue
            if r.nev < 20000 and sum(1 for k in kept + spare if k[2]) < 6:
                st = self.leaves(c)
            else:
                st = False
            new = reached(r) - seen
            if new:
                seen |= new
                kept.append((c, r, st))
            elif len(spare) < 4 or st:
                spare.append((c, r, st))
        return kept + spare

    def leaves(self, c):
        """The call leaves something behind in the package's modules, or writes there."""
        w = loader.World()
        b = loader.places(w)
        engine.solo(c, world=w)
        return loader.rewritten(b) or loader.state(w) != self.state0

    def add(self, f, pairs, more=False):
        self.calls[f] = (self.calls[f] if more else []) + [c for c, _, _ in pairs]
        for c, r, st in pairs:
            engine.REFS[api.key(c)] = r
            self.covered |= reached(r)
            if st:
                self.stateful.append(c)
            if r.nev <= 15000:
                first = {}
                for e, x in enumerate(r.sites or ()):
                    first.setdefault(x, e + 1)
                for x, e in (r.edges or {}).items():
                    first.setdefault(x, e)
                for x, e in first.items():
                    self.sites.setdefault(x, []).append((c, e))

    def open_ends(self, i):
        """Lines of code i no call of the pool reached, and jumps that only ever went one way."""
        code = loader.source().codes[i]
        ls = {l for _, _, l in code.co_lines() if l and l != code.co_firstlineno}
        ways = {}
        for x in self.covered:
            if x[0] == i and len(x) == 3:
                ways.setdefault(x[1], set()).add(x[2])
        return {(i, l) for l in ls} - self.covered, {(i, o, 0) for o, d in ways.items() if len(d) < 2}

    def missing(self):
        """[(code index, [functions that enter it])] for code with open ends."""
        src = loader.source()
        reach = {}
        for f, cs in self.calls.items():
            for c in cs:
                r = engine.REFS[api.key(c)]
                for x in set(r.sites or ()):
                    d = reach.setdefault(x[0], {})
                    d[f] = min(d.get(f, r.nev), r.nev)
        out = []
        for code in src.codes:
            i = src.index[code]
            if code.co_name == "<module>" or i not in reach:
                continue
            if any(self.open_ends(i)):
                out.append((i, sorted(reach[i], key=lambda f: (reach[i][f], f))[:3]))
        return out

    def chase(self, i, fs, n):
        """More calls, mutated towards the open ends of code i; [(function, call, Ref, stateful)]."""
        src = loader.source()
        code = src.codes[i]
        rng = rng_for(self.seed, "chase", src.code_id[code])
        consts = loader.constants_of(code) or self.consts
        lines, jumps = self.open_ends(i)
        if not lines:
            n = n // 2
        seen = {x for x in self.covered if x[0] == i}
        out = []
        here = lambda c: {x for x in reached(engine.ref(c)) if x[0] == i}
        grown = {f: [c for c in self.calls[f] if here(c)] for f in fs}
        fseen = {f: {x for c in grown[f] for x in here(c)} for f in fs}
        for _ in range(n):
            if not lines and not jumps:
                break
            f = rng.choice([fs[0], fs[0]] + fs)
            w = rng.random()
            c = copy.deepcopy(rng.choice(grown[f][-3:] if w < 0.5 else grown[f])) if grown[f] and w < 0.8 else fresh(rng, self, f)
            for _ in range(rng.choice([1, 1, 2, 3])):
                w = rng.random()
                if rng.random() < 0.2:
                    relate(rng, c)
                elif rng.random() < 0.4:
                    c = tweak(rng, c, consts)
                elif w < 0.45 and consts:
                    use_constant(rng, consts, c)
                elif w < 0.6:
                    reshape(rng, c)
                elif w < 0.7:
                    enlarge(rng, c)
                elif w < 0.8:
                    c = api.extreme(rng, c)
                elif w < 0.9:
                    ns = api.neighbours(rng, c, ctx_like(rng, c))
                    if ns:
                        c = rng.choice(ns)
                else:
                    c = api.invalidate(rng, c)
            r = engine.ref(c)
            if r.nev > 60000:
                engine.REFS.pop(api.key(c), None)
                continue
            new = here(c)
            if new - seen or new - fseen[f]:
                lines -= new
                jumps -= {(x[0], x[1], 0) for x in new - seen if len(x) == 3}
                seen |= new
                fseen[f] |= new
                out.append((f, c, r, self.leaves(c)))
                grown[f].append(c)
            else:
                engine.REFS.pop(api.key(c), None)
        return out

    def grow(self, found):
        for f, c, r, st in found:
            self.add(f, [(c, r, st)], more=True)

    def finish(self):
        """After all functions were added: a seeded order of the package's lines."""
        self.order = sorted(self.sites)
        rng_for(self.seed, "order").shuffle(self.order)
        self.hot_sites = [x for x in self.order if x in self.hot]
        self.essential = self.set_cover()

    def own(self, f):
        """The code the caller of f enters: each of its ways is also walked by a call from outside."""
        code = getattr(inspect.unwrap(self.world.get(f)), "__code__", None)
        return loader.source().index.get(code)

    def set_cover(self):
        todo = {}
        for f in sorted(self.calls):
            for c in self.calls[f]:
                r = engine.REFS[api.key(c)]
                if r.nev <= 60000:
                    x = reached(r)
                    own = self.own(f)
                    todo[api.key(c)] = (c, r.nev, x | {(f,) + y for y in x if y[0] == own})
        left = set().union(*[x[2] for x in todo.values()]) if todo else set()
        out = []
        while left:
            k = max(sorted(todo), key=lambda k: len(todo[k][2] & left) / (300.0 + todo[k][1]))
            c, n, x = todo.pop(k)
            if not x & left:
                break
            left -= x
            out.append(c)
        return out

    def target(self, rng, n, cap=15000):
        """The n-th line of the package: a call that executes it and the event where it does."""
        if not self.order:
            return None
        x = self.order[n % len(self.order)]
        c, e = rng.choice(self.sites[x])
        return copy.deepcopy(c), self.occurrence(rng, c, x, e)

    def cover(self, rng, i):
        """The i-th call of a walk over the package's functions and lines."""
        fs = self.functions()
        if i % 2 and self.order:
            return self.target(rng, i // 2)[0]
        return self.pick(rng, fs[i // 2 % len(fs)])

    def hot_target(self, rng):
        if not self.hot_sites:
            return None
        x = rng.choice(self.hot_sites)
        c, e = rng.choice(self.sites[x])
        return copy.deepcopy(c), self.occurrence(rng, c, x, e)

    def occurrence(self, rng, c, x, e):
        s = engine.ref(c).sites
        if rng.random() < 0.5 or not s or len(x) != 2:
            return e
        j = rng.randrange(len(s))
        for q in range(j, min(len(s), j + 500)):
            if s[q] == x:
                return q + 1
        return e

    def stateful_call(self, rng):
        """A call that leaves something behind, if the package has any."""
        return copy.deepcopy(rng.choice(self.stateful)) if self.stateful else None

    def pick(self, rng, f):
        return copy.deepcopy(rng.choice(self.calls[f])) if self.calls.get(f) else fresh(rng, self, f)

    def line_coverage(self):
        """(covered, total) lines inside functions of computation modules, and the uncovered ones."""
        src = loader.source()
        tot, unc = set(), []
        for c in src.codes:
            if c.co_name == "<module>" or c.co_filename.endswith("vis.py"):
                continue
            if c.co_name == "SlidingWindow" or c.co_name == "ParameterError":
                continue
            for _, _, l in c.co_lines():
                if l and l != c.co_firstlineno:
                    tot.add((src.index[c], l))
        for s in sorted(tot - self.covered):
            unc.append("%s:%d" % (src.code_id[src.codes[s[0]]].split(":")[0], s[1]))
        return len(tot & self.covered), len(tot), unc


def minimal(rng, f):
    """The call with every optional parameter left at its default (small signal)."""
    ctx = api.Ctx(rng)
    ctx.fs = 16000
    c = api.gen_call(rng, f, ctx)
    keep = {}
    req = {"sig", "fs", "a", "e", "nceps", "x", "ceps", "spectrum", "w", "P", "Q_tilde_in", "Q_tilde_0", "R_tilde", "Q_tilde", "T", "fb", "fc",
           "min_freq", "max_freq", "fcs", "B", "wT", "tau_max", "d_t", "tau", "cmdf", "tau_min", "f", "fm", "fe", "scale", "frames", "frame_len",
           "stride_length", "stride_step", "X", "fb_type", "upper_cutoff", "high_freq", "nfilts"}
    for k, v in c["a"].items():
        if k in req:
            keep[k] = v
    big = f.split(":")[1]
    if big in ("mfcc", "imfcc", "mel_spectrogram", "gfcc", "lfcc", "linear_spectrogram", "erb_spectrogram", "ngcc", "msrcc", "psrcc",
               "pncc", "bfcc", "bark_spectrogram", "plp", "rplp", "lpc", "lpcc") or f.startswith("fbanks"):
        for k in ("nfilts", "scale", "high_freq"):
            if k in keep and not (k == "high_freq" and big.startswith(("imfcc", "inverse"))) and not big.startswith("generate"):
                if k == "nfilts" and f.startswith("fbanks"):
                    continue
                keep.pop(k)
    return keep


def fresh(rng, pool, f, ctx=None, small=False):
    ctx = ctx or api.Ctx(rng, small)
    c = api.gen_call(rng, f, ctx)
    if pool is not None and pool.consts and rng.random() < 0.3:
        use_constant(rng, pool.consts, c)
    elif not small and rng.random() < 0.3:
        reshape(rng, c)
    elif not small and rng.random() < 0.06:
        enlarge(rng, c)
    elif not small and rng.random() < 0.15:
        c = api.extreme(rng, c)
    return c


def reshape(rng, c):
    """Unusual sizes, shapes, element types and contents for one array argument."""
    names = [a for a, v in c["a"].items() if isinstance(v, dict) and v.get("$") == "arr"]
    if not names:
        return
    a = rng.choice(names)
    v = c["a"][a]
    w = rng.random()
    if rng.random() < 0.25:
        if rng.random() < 0.3:
            v["ro"] = 1
        v["lay"] = rng.choice(api.LAYOUTS if a == "sig" and isinstance(v["n"], int) else ["C", "F", "ro", "str"] if not isinstance(v["n"], int) else ["C", "ro", "str", "rev"])
    if a == "sig":
        if w < 0.12 and isinstance(v["n"], int):
            v["n"] = rng.choice([1, 2, 5, 17, 40, v["n"] // 3 + 1])
        elif w < 0.5 and isinstance(v["n"], int):
            v["n"] = min(int(v["n"] * rng.choice([0.5, 1.5, 2.3, 4, 9])) + rng.randrange(3), 9000)
        else:
            v["k"] = rng.choice(["sparse", "half", "int", "unit", "const", "pos", "tone"])
        return
    if w < 0.35:
        v["k"] = rng.choice(["noise", "sparse", "half", "zeros", "pos", "const", "int", "dec"])
        if rng.random() < 0.3:
            v.pop("gain", None)
    elif w < 0.55:
        v["dt"] = rng.choice(["float32", "int32", "int16", "float64", ">f8"])
    if a != "fbanks" and (w > 0.5 or rng.random() < 0.4):
        if isinstance(v["n"], int):
            v["n"] = max(1, int(v["n"] * rng.choice([0.5, 2, 5, 30, 120])) + rng.randrange(3))
            if v["n"] > 20000:
                v["n"] = 20000
        elif len(v["n"]) == 2:
            r, q = v["n"]
            v["n"] = rng.choice([[r * 3, q], [r, q * 4], [r * 12, q], [q, r], r * q, r * q * 9, [1, q], [r, 1]])


def grid(rng, pool, f):
    """A call of f whose array arguments combine storage, element type, size, shape and contents freely."""
    c = pool.pick(rng, f) if rng.random() < 0.5 else fresh(rng, None, f, small=rng.random() < 0.3)
    plain = rng.random() < 0.5                # storage a function could write into
    if rng.random() < 0.25:
        relate(rng, c)
    for a, v in c["a"].items():
        if not (isinstance(v, dict) and v.get("$") == "arr") or v["k"] == "cplx" and rng.random() < 0.7:
            continue
        v.pop("peak", None)
        flat = isinstance(v["n"], int)
        if a != "fbanks":
            if flat:
                w = rng.random()
                if w < 0.25:
                    v["n"] = rng.choice([1, 2, 3, 9, 17, 40, 70, 100])
                elif w < 0.45:
                    v["n"] = rng.choice([1, 1, 2, 3]) * rng.choice([300, 513, 1025, 2049, 4097])
                elif w < 0.55 and a not in ("sig", "spectrum"):
                    v["n"] = [rng.choice([1, 2, 5, 30]), rng.choice([1, 3, 13, 40])]
            else:
                w = rng.random()
                if w < 0.3:
                    v["n"] = [rng.choice([1, 2, 3, 20, 70]), rng.choice([1, v["n"][-1], v["n"][-1], v["n"][-1]])]
                elif w < 0.45:
                    v["n"] = rng.choice([1, 5, 64, 300, 1025, 2000, 4097])
        flat = isinstance(v["n"], int)
        v["lay"] = "C" if plain else rng.choice(["list", "list"] + LAYOUTS1 if flat else ["C", "F", "ro", "str", "list", "emb"])
        if not plain and rng.random() < 0.4:
            v["ro"] = 1
        v["dt"] = rng.choice(["float64", "float64", "float64", "float32", "int16", "int32", "int64", ">f8"]) if v["k"] != "cplx" else "float64"
        if rng.random() < 0.6 and v["k"] != "cplx":
            v["k"] = rng.choice(["noise", "sparse", "sparse", "half", "pos", "zeros", "nan", "int", "unit", "dc"])
    return c


INTS = [1, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 16, 17, 24, 31, 33, 48, 50, 63, 65, 99, 100, 127, 129, 200, 255, 257, 300, 500, 511, 513, 1000, 1023, 1025, 2048, 4096]


def tweak(rng, c, consts=()):
    """One parameter, chosen evenly, at a value chosen evenly among the kinds of values it may have."""
    a = c["a"]
    n, dom = rng.choice(api.API[c["f"]])
    cur = a.get(n)
    w = rng.random()
    if isinstance(cur, dict) and cur.get("$") == "arr":
        if rng.random() < 0.6:
            reshape(rng, c)
        elif isinstance(cur["n"], int) and n != "fbanks":
            cur["n"] = rng.choice(INTS) if not consts or rng.random() < 0.5 else max(1, min(20000, int(abs(rng.choice(consts))) + rng.choice([-1, 0, 1])))
        return c
    if isinstance(cur, dict) and cur.get("$") == "win" or n == "window" and cur is None and w < 0.7:
        v = list(cur["v"]) if cur else [0.025, 0.01, "hamming"]
        v[0] = rng.choice([v[0], 0.001, 0.003, 0.008, 0.016, 0.02, 0.0255, 0.032, 0.064, 0.1])
        v[1] = rng.choice([v[1], v[0], v[0] / 2, v[0] / 4, 0.0005, 0.01, 0.03])
        v[2] = rng.choice(api.WIN_TYPES + ["bogus"]) if rng.random() < 0.5 else v[2]
        a[n] = {"$": "win", "v": v}
        return c
    if w < 0.2 and n in api.EXTREME:
        a[n] = copy.deepcopy(rng.choice(api.EXTREME[n]))
    elif w < 0.3 and n in api.INVALID:
        a[n] = copy.deepcopy(rng.choice(api.INVALID[n]))
    elif w < 0.4 and n not in ("sig", "fs"):
        a.pop(n, None)
    elif n in BOUNDS and w < 0.9:
        lo, hi = BOUNDS[n]
        v = rng.choice(INTS) if w < 0.55 else rng.choice(consts) + rng.choice([-1, 0, 1]) if consts and w < 0.7 else cur + rng.choice([-2, -1, 1, 2]) if w < 0.8 and isinstance(cur, (int, float)) else lo * (hi / lo) ** rng.random() if lo > 0 else rng.uniform(lo, hi)
        v = min(v, hi)
        a[n] = float(v) if n in FLOATS and rng.random() < 0.5 else int(v)
    else:
        v = dom(rng, ctx_like(rng, c), a)
        if v == api.MISSING:
            a.pop(n, None)
        else:
            a[n] = v
    if n in ("nfft", "nfilts") and "fbanks" in a:
        a["fbanks"] = api.fbanks_for(rng, a)
    return c


LAYOUTS1 = ["C", "ro", "str", "rev", "emb", "col", "row"]


def relate(rng, c):
    """Make two quantities of a call meet: the signal's length and the window's, the number of coefficients and of filters, two numbers."""
    a = c["a"]
    fs = a.get("fs", 16000)
    fs = fs if isinstance(fs, (int, float)) and 0 < fs < 1e6 else 16000
    w = a.get("window")
    w = w["v"] if isinstance(w, dict) and w.get("$") == "win" else [a.get("win_len", 0.03 if c["f"].endswith("compute_yin") else 0.025), a.get("win_hop", 0.015 if c["f"].endswith("compute_yin") else 0.01)]
    wl, hop = (int(v * fs) if isinstance(v, (int, float)) and 0 < v * fs < 40000 else 100 for v in w[:2])
    off = rng.choice([0, 0, 0, 1, -1])
    arrs = [n for n, v in a.items() if isinstance(v, dict) and v.get("$") == "arr" and n != "fbanks"]
    nums = [n for n, v in a.items() if n in BOUNDS and isinstance(v, (int, float)) and not isinstance(v, bool)]
    sizes = [wl, a.get("nfft", 512), hop]
    how = rng.random()
    if arrs and (how < 0.6 or not nums):
        v = a[rng.choice(arrs)]
        if isinstance(v["n"], int):
            m = wl if rng.random() < 0.4 else rng.choice([wl + hop, wl + 2 * hop, wl + 5 * hop, a.get("nfft", 512), hop, 2 * wl] + [int(a[n]) for n in nums])
            if isinstance(m, int):
                v["n"] = max(1, min(20000, m + off))
        elif len(v["n"]) == 2:
            r, q = v["n"]
            m = rng.choice([r, q] + [int(a[n]) for n in nums if 1 <= a[n] <= 600])
            v["n"] = rng.choice([[r, max(1, m + off)], [max(1, min(200, m + off)), q]])
        return
    if not nums:
        return
    n = rng.choice(nums)
    lo, hi = BOUNDS[n]
    others = [a[m] for m in nums if m != n] + sizes + [fs / 2, fs / 4] + [v for m in arrs for v in ([a[m]["n"]] if isinstance(a[m]["n"], int) else a[m]["n"])]
    others = [v for v in others if isinstance(v, (int, float)) and lo <= v + off <= min(hi, 5000 if n not in FLOATS else hi)]
    if others:
        v = rng.choice(others) + off
        a[n] = v if n in FLOATS else int(v)
        if n in ("nfft", "nfilts") and "fbanks" in a:
            a["fbanks"] = api.fbanks_for(rng, a)


def enlarge(rng, c):
    """Large sizes, several at once."""
    a = c["a"]
    for k, vs in (("nfft", [512, 1024, 2048, 4096]), ("nfilts", [32, 48, 64, 96, 128]), ("num_ceps", [20, 30]), ("fs", [22050, 44100, 48000])):
        if isinstance(a.get(k), int) and rng.random() < (0.6 if k[:2] == "nf" else 0.25):
            a[k] = rng.choice(vs)
    v = a.get("sig")
    if isinstance(v, dict) and isinstance(v.get("n"), int) and rng.random() < 0.6:
        v["n"] = rng.choice([2000, 5000, 9000, 16000])
    if "fbanks" in a:
        a["fbanks"] = api.fbanks_for(rng, a)


def use_constant(rng, consts, c):
    """Put one parameter, array size or amplitude at, just below or just above a number the package compares with."""
    k = rng.choice(consts)
    names = [n for n, v in c["a"].items() if n in BOUNDS and isinstance(v, (int, float))] + (["n"] if isinstance(c["a"].get("sig"), dict) else [])
    free = [a for a, v in c["a"].items() if a != "sig" and isinstance(v, dict) and v.get("$") == "arr"]
    rng.shuffle(names)
    arrs = [a for a, v in c["a"].items() if isinstance(v, dict) and v.get("$") == "arr"]
    if arrs and rng.random() < 0.1:
        c["a"][rng.choice(arrs)]["peak"] = abs(k) * rng.choice([0.99, 1.01, 2])
        return
    if "n" in names and rng.random() < 0.2 and 2 <= k <= 300:      # that many frames
        w, fs = c["a"].get("window"), c["a"].get("fs", 16000)
        w = w["v"] if isinstance(w, dict) else [c["a"].get("win_len", 0.025), c["a"].get("win_hop", 0.01)]
        if isinstance(fs, (int, float)) and fs > 0:
            m = int(w[0] * fs) + int(w[1] * fs) * (int(k) + rng.choice([-1, 0, 0, 1])) + 1
            if 60 <= m <= 30000:
                c["a"]["sig"]["n"] = m
                return
    if len(free) == 1 and (not names or rng.random() < 0.5):
        v = c["a"][free[0]]
        m = int(rng.choice([k, k + 1, k + 1, k - 1, 2 * k]))
        if isinstance(v["n"], int) and 1 <= m <= 70000:
            v["n"] = m
            return
        if isinstance(v["n"], list) and len(v["n"]) == 2 and free[0] != "fbanks":
            j = rng.randrange(2)
            if 1 <= m <= 3000:
                v["n"][j] = m
            elif m <= 200000 and v["n"][1 - j]:
                v["n"][j] = m // v["n"][1 - j] + 1
            return
    for n in names:
        lo, hi = BOUNDS[n]
        for v in rng.sample([k, k + 1, k - 1, 2 * k, k + 0.5], 5):
            if not lo <= v <= hi:
                continue
            if n == "n":
                c["a"]["sig"]["n"] = int(v)
            elif n in FLOATS:
                c["a"][n] = v
            elif v == int(v):
                c["a"][n] = int(v)
            else:
                continue
            if n in ("nfft", "nfilts") and "fbanks" in c["a"]:
                c["a"]["fbanks"] = api.fbanks_for(rng, c["a"])
            return


def pick_function(rng, pool, p_main=0.7):
    fs = pool.functions()
    if pool.stateful and rng.random() < 0.5:
        return rng.choice(pool.stateful)["f"]
    m = [f for f in fs if f in api.MAIN]
    h = [f for f in fs if f not in api.MAIN]
    if not h or (m and rng.random() < p_main):
        return rng.choice(m)
    return rng.choice(h)


def some_call(rng, pool, p_main=0.7, small=False, f=None, p_bad=0.08):
    f = f or pick_function(rng, pool, p_main)
    if small or rng.random() < 0.45:
        c = fresh(rng, pool, f, small=small)
    else:
        c = pool.pick(rng, f)
    if rng.random() < p_bad:
        c = api.invalidate(rng, c)
    return c


def ctx_like(rng, call):
    """A context whose values fit an existing call."""
    ctx = api.Ctx(rng)
    for k, a in (("fs", "fs"), ("nfft", "nfft"), ("nfilts", "nfilts"), ("num_ceps", "num_ceps"), ("low", "low_freq"), ("high", "high_freq")):
        v = call["a"].get(a)
        if isinstance(v, (int, float)) and not isinstance(v, bool) and (a != "fs" or v >= 1000) and (a not in ("nfft", "nfilts") or v >= 13):
            setattr(ctx, k, int(v) if a in ("nfft", "nfilts", "num_ceps") else v)
    s = call["a"].get("sig")
    if isinstance(s, dict):
        ctx.sig = copy.deepcopy(s)
    w = call["a"].get("window")
    if isinstance(w, dict) and w.get("$") == "win":
        ctx.win = list(w["v"])
    return ctx


def sibling(rng, pool, call):
    """Another function called with the same settings and data."""
    f = pick_function(rng, pool, 0.85)
    try:
        return api.gen_call(rng, f, ctx_like(rng, call))
    except Exception:
        return fresh(rng, pool, f)


def other_data(rng, call):
    """The same call on different data of the same size."""
    c = copy.deepcopy(call)
    for k, v in c["a"].items():
        if isinstance(v, dict) and v.get("$") == "arr":
            v["s"] = (v.get("s", 0) + 1 + rng.randrange(900)) % 10007
            if v["k"] in ("zeros", "const", "quiet") and rng.random() < 0.7:
                v["k"] = "noise"
    return c


# ------------------------------------------------------------------ placements
def place(rng, ref, k, hot=(), e=None):
    """Where in the call the fault of kind k strikes (event or allocation number), or None."""
    if k == "mem":
        if not ref.nalloc:
            return None
        if e is None and hot and rng.random() < 0.5:
            e = point(rng, ref, hot)
        if e is not None:
            r = ref.allocs_at(e)
            if len(r):
                return rng.choice(r)
        return rng.randrange(ref.nalloc)
    if not ref.nev:
        return None
    return e if e is not None else point(rng, ref, hot)


def point(rng, ref, hot=(), lo=1):
    """An event number of the call: site-stratified, state-touching lines preferred."""
    n = ref.nev
    if n < 1:
        return 1
    s = ref.sites
    w = rng.random()
    if s and hot and w < 0.45:
        first = {}
        for i, x in enumerate(s[:8000]):
            if x in hot:
                first.setdefault(x, []).append(i)
        if first:
            x = rng.choice(sorted(first))
            return max(lo, (first[x][0] if rng.random() < 0.5 else rng.choice(first[x])) + 1 + rng.choice([0, 0, 1, 1, 2, -1]))
    if s and w < 0.8:
        i = rng.choice(sorted(set(s)) if len(s) < 3000 else sorted(set(s[:1500] + s[-1500:])))
        first = s.index(i)
        occ = [first]
        if rng.random() < 0.5:
            j = rng.randrange(len(s))
            for q in range(j, min(len(s), j + 400)):
                if s[q] == i:
                    occ = [q]
                    break
        return max(lo, occ[0] + 1)
    return rng.randint(lo, max(lo, n))


SIZES = ("nfilts", "nfft", "fs", "window", "win_len", "length", "tau_max", "w", "stride_length", "frame_len", "number_of_bins_per_octave")


def axis(rng, f, lap=99):
    """A size of f that can take a new value at every call."""
    ps = [n for n, _ in api.API[f]]
    ax = [x for x in SIZES if x in ps and not (x == "nfft" and f.endswith("plp"))]
    if f not in api.MAIN or rng.random() < 0.4:
        ax.append("length")
    return ax[lap % len(ax)] if f not in api.MAIN and lap < len(ax) else rng.choice(ax)


def step(ax, c, j):
    """The j-th value of that size."""
    a = c["a"]
    if ax == "nfilts":
        a[ax] = 13 + j
        if isinstance(a.get("nfft"), int):
            a["nfft"] = 32
    elif ax == "nfft":
        a[ax] = 32 + j
    elif ax == "fs":
        a[ax] = 8000 + j
    elif ax in ("window", "win_len"):
        w = 0.02 + j / 8000.0 / 20
        if ax == "window":
            a[ax] = {"$": "win", "v": [w, 0.01 + j * 1e-9, "hamming"]}
        else:
            a[ax] = w
    elif ax == "frame_len":
        a[ax] = 64 + j
        if isinstance(a.get("frames"), dict) and isinstance(a["frames"]["n"], list):
            a["frames"]["n"] = [2, 64 + j]
    elif ax == "length":
        for v in a.values():
            if isinstance(v, dict) and v.get("$") == "arr":
                if isinstance(v["n"], int):
                    v["n"] += j
                elif "fbanks" not in a:
                    v["n"] = [v["n"][0] + j, v["n"][1]]
    elif ax in a:
        a[ax] = {"tau_max": 20, "w": 3, "stride_length": 20, "number_of_bins_per_octave": 3, "nceps": 3, "order": 4}.get(ax, 5) + j
    if "fbanks" in a:
        a["fbanks"] = dict(api.fbanks_for(rng_for(j), a), s=j)
    v, fs, w = a.get("sig"), a.get("fs", 16000), a.get("window")
    if ax in ("fs", "window", "win_len") and isinstance(v, dict) and isinstance(v.get("n"), int) and isinstance(fs, (int, float)):
        w = w["v"][0] if isinstance(w, dict) else a.get("win_len", 0.025)
        v["n"] = max(v["n"], int(w * fs) + 2 * int(0.01 * fs) + 3)      # the call stays a valid one


def schedule(rng, refs, hot):
    """Explicit preemption points for tasks whose calls have the given references."""
    nt = len(refs)
    sw = []
    mode = rng.random()
    if mode < 0.3:                       # fine-grained round robin
        q = rng.choice([1, 2, 3, 5, 9, 20, 50])
        budget = 400
        for t, row in enumerate(refs):
            for o, r in enumerate(row):
                if r is None:
                    continue
                e = rng.randint(1, q)
                while e <= r.nev and budget > 0:
                    sw.append([t, o, e, (t + 1) % nt])
                    e += q
                    budget -= 1
    elif mode < 0.45:                    # random walk
        for t, row in enumerate(refs):
            for o, r in enumerate(row):
                if r is None or r.nev < 1:
                    continue
                p = rng.choice([0.02, 0.1, 0.3])
                k = min(int(r.nev * p) + 1, 80)
                for e in sorted(rng.sample(range(1, r.nev + 1), min(k, r.nev))):
                    sw.append([t, o, e, rng.randrange(nt)])
    else:                                # few, well-placed preemptions
        for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
            t = rng.randrange(nt)
            os_ = [o for o, r in enumerate(refs[t]) if r is not None]
            if not os_:
                continue
            o = rng.choice(os_)
            sw.append([t, o, point(rng, refs[t][o], hot), rng.choice([x for x in range(nt) if x != t]) if nt > 1 else 0])
    return sw
