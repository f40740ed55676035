"""The simulator: one process, one running task at a time, every choice taken from the plan.

A plan (plain JSON) fixes the whole run: the calls each caller task makes, at which executed
line (or bytecode instruction, in fine mode) of which call control passes to which other task,
and which fault strikes at which line, instruction or allocation. Nothing is drawn at run time.

  plan = {"tasks": [[op, ...], ...], "start": 0, "main": bool, "fine": bool,
          "bufs": {name: spec}, "wins": {name: [len, hop, type]},
          "sw": [[task, op, event, to], ...], "faults": [{"t","o","at","k",...}, ...],
          "amb": {...}}
"""
import _thread, copy, dis, gc, random, signal, sys
import numpy as np
from . import api, build, loader, seams as S
from .digest import digest, exc_digest, brief

EV = sys.monitoring.events
TOOL = 4
get_ident = _thread.get_ident
TASKS = {}
HARNESS = set()      # threads of the simulator itself
BIG = 1 << 60


class Injected:
    pass


class InjKbd(KeyboardInterrupt, Injected):
    pass


class InjAlarm(TimeoutError, Injected):
    """what a SIGALRM handler would raise"""


class InjExit(SystemExit, Injected):
    pass


class InjKill(SystemExit, Injected):
    """ends the calling thread"""


EXC = {"kbd": InjKbd, "alarm": InjAlarm, "exit": InjExit, "kill": InjKill}
SEAMS = None
alloc = None
_state = {"init": False, "mode": None}


def in_call():
    """Is the current thread executing code under test?"""
    i = get_ident()
    t = TASKS.get(i)
    return t.incall > 0 if t is not None else i not in HARNESS


# ------------------------------------------------------------------ monitoring
def _line(code, line):
    t = TASKS.get(get_ident())
    if t is None or not t.live:
        return
    t.ev = n = t.ev + 1
    t.code = code
    t.line = line
    if t.sites is not None:
        t.sites.append((code, line))
        t.allocs.append(alloc.count()[0])
    if t.watch is not None:
        t.watch(t)
    if n >= t.next:
        t.eng.point(t)


def _instr(code, off):
    t = TASKS.get(get_ident())
    if t is None or not t.live:
        return
    t.ev = n = t.ev + 1
    t.code = code
    t.line = -off - 1
    if t.sites is not None:
        t.sites.append((code, -off - 1))
        t.allocs.append(alloc.count()[0])
    if t.watch is not None:
        t.watch(t)
    if n >= t.next:
        t.eng.point(t)


def _branch(code, off, dest):
    """Which way a jump went; recorded for reference runs only (search guidance)."""
    t = TASKS.get(get_ident())
    if t is not None and t.edges is not None and t.live:
        t.edges.setdefault((code, off, dest), t.ev)


_PREV = {}
_AFTER = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "RESUME", "JUMP_BACKWARD", "CALL_INTRINSIC_1"}


def interruptible(code, off):
    """Does CPython look for pending signals right before this instruction?"""
    tab = _PREV.get(code)
    if tab is None:
        tab = _PREV[code] = {}
        prev = "RESUME"
        for i in dis.get_instructions(code):
            tab[i.offset] = prev
            prev = i.opname
    return tab.get(off) in _AFTER


_LINES = {}


def line_of(code, off):
    tab = _LINES.get(code)
    if tab is None:
        tab = _LINES[code] = {}
        for s, e, l in code.co_lines():
            for o in range(s, e, 2):
                tab[o] = l
    return tab.get(off)


def set_mode(fine):
    m = EV.INSTRUCTION if fine else EV.LINE | EV.BRANCH
    if _state["mode"] == m:
        return
    for c in loader.source().codes:
        sys.monitoring.set_local_events(TOOL, c, m)
    _state["mode"] = m


def init(real=False):
    """Per process: install the seams, the monitoring tool and the allocator."""
    global SEAMS, alloc
    if _state["init"]:
        return
    _state["init"] = True
    HARNESS.add(get_ident())
    from . import ambient
    ambient.HARNESS = HARNESS
    import warnings
    import scipy.signal, scipy.fft, scipy.fftpack, scipy.linalg, scipy.stats, scipy.interpolate, typing_extensions
    np.seterr(all="warn")
    warnings.resetwarnings()
    warnings.filterwarnings("always", message="simulated host program's own filter")
    warnings.showwarning = _silent
    warnings.simplefilter("always")
    alloc = build.load()
    alloc.poison(0, 0, 64, 0)
    SEAMS = S.Seams()
    loader.install(None if real else SEAMS)
    loader.source()
    sys.monitoring.use_tool_id(TOOL, "sim")
    sys.monitoring.register_callback(TOOL, EV.LINE, _line)
    sys.monitoring.register_callback(TOOL, EV.INSTRUCTION, _instr)
    sys.monitoring.register_callback(TOOL, EV.BRANCH, _branch)
    set_mode(False)
    gc.set_threshold(200000, 50, 1000)


def _silent(*a, **k):
    pass


# ------------------------------------------------------------------ reference outcomes
class Ref:
    __slots__ = ("out", "nev", "sites", "_nalloc", "brief", "call", "fine", "allocs", "edges")

    def __init__(self, out, nev, sites, nalloc, br, call=None, fine=False, edges=None):
        self.allocs = None
        self.edges = edges          # {(code index, jump, destination): event} first time each way was taken
        self.out, self.nev, self.sites, self._nalloc, self.brief, self.call, self.fine = out, nev, sites, nalloc, br, call, fine

    def __reduce__(self):
        return (Ref, (self.out, self.nev, self.sites, self._nalloc, self.brief, self.call, self.fine, self.edges))

    @property
    def nalloc(self):
        """Allocations of the call. Counted in a repetition: the first call of a process may also
        allocate for the lazy set-up of numpy or scipy."""
        if self._nalloc is None:
            solo(self.call, self.fine)
            r = solo(self.call, self.fine, sites=self.nev <= 20000)
            self._nalloc, self.allocs = r._nalloc, r.allocs
        return self._nalloc

    def allocs_at(self, e):
        """Numbers of the allocations made by the line of event e."""
        n = self.nalloc
        a = self.allocs
        if not a or not 1 <= e <= len(a):
            return range(0)
        return range(a[e - 1], a[e] if e < len(a) else n)


REFS = {}
LIMIT = 400000


def ref(call, fine=False):
    """What the call does alone, first, in a fresh instance of the package."""
    k = ("F" if fine else "") + api.key(call)
    r = REFS.get(k)
    if r is None:
        if len(REFS) > 60000:
            REFS.clear()
        r = REFS[k] = _ref(call, fine)
    return r


def _ref(call, fine):
    r = solo(call, fine, sites=True)
    r._nalloc, r.call, r.fine, r.allocs = None, copy.deepcopy(call), fine, None
    return r


def solo(call, fine=False, sites=False, world=None, plan=None):
    """Run one call as the only task; returns a Ref."""
    eng = Engine({"tasks": [[call]], "main": True, "fine": fine}, world=world, reference=True)
    eng.keep_sites = sites
    eng.run()
    return eng.recs[0].as_ref()


class Rec:
    """One executed call."""
    __slots__ = ("t", "o", "op", "call", "ref", "out", "brief", "nev", "sites", "nalloc", "hit", "injected", "value", "kw", "sub",
                 "mem_failed", "extra", "ended_at", "allocs", "edges", "deferred")

    def __init__(self, t, o, op, call, ref):
        self.t, self.o, self.op, self.call, self.ref = t, o, op, call, ref
        self.out = None
        self.hit = []          # faults that fired
        self.injected = None
        self.value = None
        self.sites = self.allocs = self.edges = None
        self.nev = self.nalloc = self.mem_failed = 0
        self.brief = ""
        self.sub = False
        self.extra = None
        self.ended_at = 0
        self.deferred = False

    def as_ref(self):
        ci = loader.source().index
        sites = [(ci[c], l) for c, l in self.sites] if self.sites is not None else None
        r = Ref(self.out, self.nev, sites, self.nalloc, self.brief)
        r.allocs = self.allocs
        r.edges = {(ci[c], o, d): e for (c, o, d), e in self.edges.items()} if self.edges is not None else None
        return r

    def where(self):
        return "task %d op %d %s%s" % (self.t, self.o, self.op["f"], " (re-entrant)" if self.sub else "")


class Task:
    def __init__(self, eng, idx, ops):
        self.eng, self.idx, self.ops = eng, idx, ops
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.live = False
        self.ev = 0
        self.next = BIG
        self.sites = self.edges = None
        self.watch = None
        self.code = self.line = None
        self.done = self.stalled = self.dead = False
        self.blocked = None
        self.blocked_lock = None
        self.opi = -1
        self.pend = []
        self.sw = []
        self.bound = BIG
        self.fair = BIG
        self.rec = None
        self.incall = 0


SIGNAL = {"kbd": signal.SIGINT, "alarm": signal.SIGALRM}


class Mon:
    """Property-specific observer; all hooks optional."""
    watch = None
    traceless = True           # exceptions lose their traceback once recorded

    def start(self, eng):
        pass

    def op_start(self, eng, t, rec, kw):
        pass

    def op_end(self, eng, t, rec):
        pass

    def act(self, eng, t, op):
        pass

    def switched(self, eng, t):
        pass

    def end(self, eng):
        pass


class Engine:
    def __init__(self, plan, mon=None, world=None, reference=False):
        self.plan = plan
        self.mon = mon or Mon()
        self.reference = reference
        self.fine = bool(plan.get("fine"))
        self.world = world or loader.World()
        self.recs = []
        self.viol = []
        self.log = []
        self.steps = 0
        self.switches = 0
        self.fired = {}
        self.fsites = set()
        self.aborting = False
        self.error = None
        self.keep_sites = False
        self.stall_checked = False
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()

    # -- violations
    def violate(self, cls, detail):
        self.viol.append((cls, detail))

    # -- scheduling
    def runnable(self, u):
        return not u.done and not u.stalled and (u.blocked is None or self.aborting or u.blocked())

    def pick(self, t, to=None):
        """Next task after t (not t itself), preferring `to`."""
        n = len(self.tasks)
        order = ([to] if to is not None else []) + [(t.idx + 1 + i) % n for i in range(n - 1)]
        for i in order:
            u = self.tasks[i]
            if u is not t and self.runnable(u):
                return u
        return None

    def switch(self, t, u):
        self.switches += 1
        self.log.append(("sw", t.idx, t.opi, t.ev, u.idx, u.ev))
        u.gate.release()
        t.gate.acquire()
        if self.aborting:
            raise S.SimAbort("run aborted")

    def yield_point(self):
        t = TASKS.get(get_ident())
        if t is None or t.done:
            return
        u = self.pick(t)
        if u is not None:
            self.switch(t, u)

    def block_until(self, pred, lock):
        t = TASKS.get(get_ident())
        if t is None:
            raise S.SimAbort("deadlock: a lock is held and nobody will release it")
        t.blocked, t.blocked_lock = pred, lock
        try:
            while not pred():
                if self.aborting:
                    raise S.SimAbort("run aborted")
                u = self.pick(t)
                if u is None:
                    st = [x for x in self.tasks if x.stalled and not x.done and x is not t]
                    if st:
                        if not self.stall_checked:
                            self.stall_checked = True
                            self.violate("waits-for-stalled", "%s waits for a call of task %d that is stalled inside the library" % (self.cur(t), st[0].idx))
                        st[0].stalled = False
                        continue
                    self.violate("deadlock", "%s waits for something no running or future call will provide" % self.cur(t))
                    self.aborting = True
                    raise S.SimAbort("deadlock")
                self.switch(t, u)
        finally:
            t.blocked = t.blocked_lock = None

    def cur(self, t):
        r = t.rec
        return (r.where() if r is not None else "task %d" % t.idx) + " at %s" % self.site(t)

    def site(self, t):
        if t.code is None:
            return "?"
        l = t.line if t.line is None or t.line >= 0 else line_of(t.code, -t.line - 1)
        return "%s:%s" % (loader.source().code_id.get(t.code, "?").split(":")[0], l)

    def handoff(self, t):
        """t has ended; pass control on."""
        u = self.pick(t)
        if u is None:
            left = [x for x in self.tasks if not x.done and x is not t]
            st = [x for x in left if x.stalled]
            bl = [x for x in left if x.blocked is not None and not x.stalled]
            if st:
                if bl and not self.stall_checked:
                    self.stall_checked = True
                    self.violate("waits-for-stalled", "%s waits for a call of task %d that is stalled inside the library" % (self.cur(bl[0]), st[0].idx))
                u = st[0]
                u.stalled = False
            elif bl:
                if not self.aborting:
                    self.violate("deadlock", "%s waits for something no running or future call will provide" % self.cur(bl[0]))
                self.aborting = True
                u = bl[0]
        if u is None:
            self.main_gate.release()
        else:
            self.log.append(("end", t.idx, u.idx))
            u.gate.release()

    # -- events
    def arm(self, t, rec):
        t.ev = 0
        t.code = t.line = None
        t.pend = sorted((f for f in self.plan.get("faults", ()) if f["t"] == t.idx and f["o"] == t.opi and f["k"] != "mem"), key=lambda f: f["at"])
        t.sw = sorted((s for s in self.plan.get("sw", ()) if s[0] == t.idx and s[1] == t.opi), key=lambda s: s[2])
        n = rec.ref.nev if rec.ref is not None else LIMIT // 20
        t.bound = 20 * n + 2000
        t.fair = 4 * n + 400
        self.renext(t)

    def renext(self, t):
        n = t.bound
        if t.pend:
            n = min(n, t.pend[0]["at"])
        if t.sw:
            n = min(n, t.sw[0][2])
        if len(self.tasks) > 1:
            n = min(n, t.fair)
        t.next = n

    def point(self, t):
        if self.aborting:
            raise S.SimAbort("run aborted")
        n = t.ev
        while t.sw and t.sw[0][2] <= n:
            s = t.sw.pop(0)
            u = self.pick(t, s[3] % len(self.tasks))
            if u is not None:
                self.mon.switched(self, t)
                self.renext(t)
                self.switch(t, u)
        i = 0
        while i < len(t.pend) and t.pend[i]["at"] <= n:
            f = t.pend[i]
            k = f["k"]
            if k in EXC:
                if self.fine:
                    ok = interruptible(t.code, -t.line - 1)
                else:
                    ok = (t.code.co_filename, t.line) not in loader.source().with_lines
                if not ok:
                    i += 1
                    continue
            t.pend.pop(i)
            self.fire(t, f)
        if n >= t.bound:
            self.violate("runaway", "%s executed %d steps, %s" % (self.cur(t), n, "alone it needs %d" % t.rec.ref.nev if t.rec.ref else "on ordinary numbers it needs fewer than %d" % (n // 40)))
            self.aborting = True
            raise S.SimAbort("step bound")
        if n >= t.fair:
            t.fair = n + 200
            u = self.pick(t)
            if u is not None:
                self.renext(t)
                self.switch(t, u)
        self.renext(t)
        if t.pend and t.pend[0]["at"] <= n:
            t.next = n + 1

    def fire(self, t, f):
        k = f["k"]
        self.fired[k] = self.fired.get(k, 0) + 1
        self.fsites.add((k, t.code, t.line))
        self.log.append(("fault", k, t.idx, t.opi, t.ev))
        if t.rec is not None:
            t.rec.hit.append(f)
        if k in EXC:
            e = EXC[k]("injected at event %d" % t.ev)
            t.rec.injected = e
            t.rec.extra = self.site(t)
            if k in SIGNAL:
                h = signal.getsignal(SIGNAL[k])
                if h is not self.handlers[k] and h is not signal.SIG_DFL:      # what the call has put in place of the host's handler decides
                    self.renext(t)
                    if callable(h):
                        try:
                            h(int(SIGNAL[k]), sys._getframe())
                        except BaseException as x:
                            t.rec.injected = x
                            raise
                        t.rec.deferred = True
                    return
            if k == "kill":
                t.dead = True
            self.renext(t)
            raise e
        if k == "stall":
            u = self.pick(t)
            if u is not None:
                t.stalled = True
                self.mon.switched(self, t)
                self.renext(t)
                self.switch(t, u)
        elif k == "re":
            self.nested(t, f["op"])
        elif k == "gc":
            gc.collect()
        else:
            from . import ambient
            ambient.perturb(self, f)

    def nested(self, t, op):
        saved = (t.ev, t.next, t.pend, t.sw, t.bound, t.fair, t.rec, t.code, t.line, t.sites, t.watch, t.live)
        t.live = False
        t.incall -= 1
        try:
            self.call(t, op, sub=True)
        finally:
            t.incall += 1
            (t.ev, t.next, t.pend, t.sw, t.bound, t.fair, t.rec, t.code, t.line, t.sites, t.watch, t.live) = saved

    # -- operations
    def materialise(self, op):
        kw = {}
        for k, v in op["a"].items():
            if isinstance(v, dict) and "$" in v:
                kind = v["$"]
                if kind == "buf":
                    v = self.bufs[v["n"]]
                elif kind == "winobj":
                    v = self.wins[v["n"]]
                elif kind == "arr":
                    v = api.make_array(v)
                elif kind == "num":
                    v = api.make_num(v)
                elif kind == "win":
                    v = self.make_win(v["v"])
            kw[k] = v
        return kw

    def make_win(self, v):
        c = self.world.get("utils.preprocessing:SlidingWindow")
        return c(v[0], v[1], v[2])

    def call(self, t, op, sub=False):
        fn = self.world.get(op["f"])
        if fn is None:
            return
        call = api.canon(op, self.bufspec, self.winspec)
        rf = None
        if not self.reference and not self.plan.get("noref"):
            rf = REFS.get(("F" if self.fine else "") + api.key(call))
            if rf is None:
                raise RuntimeError("reference missing for %s" % api.key(call))
        rec = Rec(t.idx, t.opi, op, call, rf)
        rec.sub = sub
        self.recs.append(rec)
        kw = self.materialise(op)
        t.rec = rec
        if not sub:
            self.arm(t, rec)
            t.sites = [] if self.keep_sites else None
            t.allocs = [] if self.keep_sites else None
            t.edges = {} if self.keep_sites and not self.fine else None
        self.mon.op_start(self, t, rec, kw)
        t.watch = self.mon.watch if not sub else None
        fail = -1
        if not sub:
            for f in self.plan.get("faults", ()):
                if f["t"] == t.idx and f["o"] == t.opi and f["k"] == "mem":
                    fail = f["at"]
        if not sub:
            alloc.arm(fail)
        v = None
        ok = False
        t.live = not sub
        t.incall += 1
        try:
            v = fn(**kw)
            ok = True
            t.live = False
            t.incall -= 1
        except S.SimAbort:
            t.live = False
            t.incall -= 1
            rec.out = ("abort", "")
        except BaseException as e:
            t.live = False
            t.incall -= 1
            if e is rec.injected:
                rec.out = ("inj", type(e).__name__)
            elif isinstance(e, Injected):
                rec.out = ("inj-other", type(e).__name__)
            else:
                rec.out = ("exc", exc_digest(e))
            rec.brief = exc_digest(e)
            if self.mon.traceless:
                e.__traceback__ = None
                e.__context__ = e.__cause__ = None
            elif e is rec.injected:
                rec.injected = type(e)("injected")       # whoever else holds the original now holds the call's frames
            del e
        if not sub:
            c = alloc.count()
            rec.nalloc, rec.mem_failed = c[0], c[1]
            alloc.arm(-1)
            rec.nev = t.ev
            self.steps += t.ev
            rec.sites, rec.allocs, rec.edges = t.sites, t.allocs, t.edges
            t.sites = t.allocs = t.edges = None
        if rec.mem_failed:
            self.fired["mem"] = self.fired.get("mem", 0) + rec.mem_failed
            rec.hit.append({"k": "mem", "at": fail})
            self.fsites.add(("mem", op["f"], fail))
        if ok:
            rec.out = ("ret", digest(v))
            rec.brief = brief(v) if self.reference or (rf and rec.out != rf.out) else ""
            rec.value = v
        rec.kw = kw
        t.watch = None
        rec.ended_at = len(self.log)
        self.mon.op_end(self, t, rec)
        if not self.plan.get("keep"):
            rec.value = rec.kw = None
        self.log.append(("out", t.idx, t.opi, sub) + rec.out)

    def do(self, t, op):
        if "act" in op:
            self.log.append(("act", t.idx, t.opi, op["act"]))
            if op["act"] == "fill":
                self.fill(op["n"], op["spec"])
            elif op["act"] == "gc":
                gc.collect()
            elif op["act"] == "win":
                w = self.wins[op["n"]]
                w.win_len, w.win_hop, w.win_type = op["v"]
                self.winspec[op["n"]] = list(op["v"])
            elif op["act"] == "amb":
                from . import ambient
                ambient.perturb(self, op)
            else:
                self.mon.act(self, t, op)
        else:
            self.call(t, op)

    def fill(self, n, spec):
        """The caller overwrites one of its buffers in place (same shape, dtype and layout)."""
        b = self.bufs[n]
        new = api.make_array(dict(spec, lay="C", ro=0))
        if isinstance(b, list):
            b[:] = new.tolist()
        else:
            w = b.flags.writeable
            if not w:
                b = b.base if b.base is not None and b.base.shape == b.shape else b
                try:
                    b.flags.writeable = True
                except ValueError:
                    return
            b[...] = new.reshape(b.shape)
            if not w:
                b.flags.writeable = False
        self.bufspec[n] = spec

    def body(self, t):
        HARNESS.add(get_ident())
        t.gate.acquire()
        old = None
        try:
            TASKS[get_ident()] = t
            old = alloc.on()
            try:
                for i, op in enumerate(t.ops):
                    if self.aborting:
                        break
                    t.opi = i
                    self.do(t, op)
                    if t.dead:
                        break
            except S.SimAbort:
                pass
        except BaseException as e:  # harness error
            import traceback
            self.error = self.error or traceback.format_exc()
            self.aborting = True
        finally:
            t.live = False
            t.done = True
            t.rec = None
            TASKS.pop(get_ident(), None)
            if old is not None:
                alloc.off(old)
            self.handoff(t)

    def run(self):
        p = self.plan
        set_mode(self.fine)
        SEAMS.eng = self
        self.handlers = {k: signal.getsignal(x) for k, x in SIGNAL.items()}
        SEAMS.clock.pace = 1e-6
        SEAMS.who = 0
        SEAMS.clock.now = 1_700_000_000.0 + p.get("amb", {}).get("clock", 0.0)
        po = p.get("amb", {}).get("poison", [0, 0, 64, 0])
        alloc.poison(*po)
        self.world.activate()
        old = alloc.on()
        try:
            self.bufspec = dict(p.get("bufs", {}))
            self.winspec = {k: list(v) for k, v in p.get("wins", {}).items()}
            self.bufs = {k: api.make_array(v) for k, v in self.bufspec.items()}
            self.wins = {k: self.make_win(v) for k, v in self.winspec.items()}
        finally:
            alloc.off(old)
        self.tasks = [Task(self, i, ops) for i, ops in enumerate(p["tasks"])]
        self.mon.start(self)
        main = bool(p.get("main"))
        for t in self.tasks[1 if main else 0:]:
            _thread.start_new_thread(self.body, (t,))
        self.tasks[p.get("start", 0) % len(self.tasks)].gate.release()
        if main:
            self.body(self.tasks[0])
        self.main_gate.acquire()
        SEAMS.eng = None
        alloc.poison(0, 0, 64, 0)
        if self.error:
            raise RuntimeError("harness error: " + self.error)
        self.mon.end(self)
        self.bufs = self.wins = None
        return self


def prepare(plan):
    """Compute the reference outcome of every call of the plan (before the run starts)."""
    bufs = dict(plan.get("bufs", {}))
    wins = {k: list(v) for k, v in plan.get("wins", {}).items()}
    fine = bool(plan.get("fine"))
    for ops in plan["tasks"]:
        for op in ops:
            if op.get("act") == "fill":
                bufs[op["n"]] = op["spec"]
            elif op.get("act") == "win":
                wins[op["n"]] = list(op["v"])
            elif "f" in op:
                ref(api.canon(op, bufs, wins), fine)
    for f in plan.get("faults", ()):
        if f["k"] == "re":
            ref(api.canon(f["op"], bufs, wins), fine)
    from . import ambient
    ambient.guard().restore()         # what those calls may have changed is not the run's doing


def refs_of(plan):
    """Like prepare, returning [[Ref or None per op] per task]."""
    prepare(plan)
    bufs = dict(plan.get("bufs", {}))
    wins = {k: list(v) for k, v in plan.get("wins", {}).items()}
    fine = bool(plan.get("fine"))
    out = []
    for ops in plan["tasks"]:
        row = []
        for op in ops:
            if op.get("act") == "fill":
                bufs[op["n"]] = op["spec"]
            elif op.get("act") == "win":
                wins[op["n"]] = list(op["v"])
            row.append(ref(api.canon(op, bufs, wins), fine) if "f" in op else None)
        out.append(row)
    return out
