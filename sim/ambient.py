"""The host program's settings and surroundings: snapshots, comparison, restoration, perturbation."""
import asyncio, atexit, builtins, ctypes, decimal, faulthandler, gc, hashlib, io, locale, logging, math, multiprocessing, os, random, signal, socket, sys, tempfile, threading, tracemalloc, types, warnings
import numpy as np
import scipy.fft, scipy.fftpack, scipy.interpolate, scipy.linalg, scipy.signal, scipy.special, scipy.stats     # so that a later import of theirs changes nothing that is compared

LIBM = ctypes.CDLL("libm.so.6")
_TIMERS = (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)

_SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGUSR1, signal.SIGFPE, signal.SIGHUP, signal.SIGUSR2, signal.SIGCHLD, signal.SIGQUIT, signal.SIGTSTP, signal.SIGWINCH, signal.SIGVTALRM, signal.SIGPROF]
_SYSA = ["stdout", "stderr", "stdin", "excepthook", "displayhook", "unraisablehook", "breakpointhook"]


def _rng_state():
    st = np.random.get_state(legacy=True)
    return (st[0], hashlib.md5(st[1].tobytes()).hexdigest(), st[2], st[3], st[4])


def numeric_modules():
    names = [n for n in ("numpy", "numpy.random", "numpy.fft", "numpy.linalg", "numpy.lib", "numpy.lib.stride_tricks", "scipy", "scipy.signal",
                         "scipy.fft", "scipy.fftpack", "scipy.linalg", "scipy.stats", "scipy.interpolate", "math", "random", "os",
                         "warnings", "builtins", "logging", "json", "functools", "itertools", "typing") if n in sys.modules]
    return names


def cheap():
    """Process-wide settings that cost next to nothing to read (checked at every event)."""
    return (id(warnings.filters), tuple(map(id, warnings.filters)), id(warnings.showwarning), sys.getrecursionlimit(), gc.isenabled(),
            gc.get_threshold(), sys.getswitchinterval(), id(sys.stdout), id(sys.stderr), sys.dont_write_bytecode, logging.root.level,
            logging.root.manager.disable, len(logging.root.handlers), os.getcwd(), len(os.environ), id(os.environ))


def medium():
    """Process-wide settings checked at sampled events and at every switch."""
    return {
        "warnings": tuple((f[0], getattr(f[1], "pattern", f[1]), f[2], getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters),
        "np.random": _rng_state(),
        "random": hash(random.getstate()),
        "env": dict(os.environ),
        "cwd": os.getcwd(),
        "signals": tuple(id(signal.getsignal(s)) for s in _SIGS),
        "itimer": tuple(signal.getitimer(t)[j] > 0 if not j else signal.getitimer(t)[1] for t in _TIMERS for j in (0, 1)),
        "locale": locale.setlocale(locale.LC_ALL),
        "limits": (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), threading.stack_size(), sys.get_int_max_str_digits()),
        "hooks": tuple(id(getattr(sys, a)) for a in _SYSA) + (id(warnings.showwarning), id(warnings.warn), threading.excepthook is threading.__excepthook__,
                                                           id(threading.excepthook), id(threading._trace_hook), id(threading._profile_hook),
                                                           sys.gettrace(), sys.getprofile(), len(sys.meta_path), len(sys.path_hooks), len(gc.callbacks)),
        "stand-ins": standins(),
        "putenv": sandbox_putenv(),
        "path": tuple(sys.path),
        "logging": _logging(),
        "os": os_settings(),
        "libs": _libs(),
    }


def standins():
    """Attributes of the modules that stand in for time, threading and the like."""
    from . import engine
    if engine.SEAMS is None:
        return ()
    return tuple((n, k, id(v)) for n, m in sorted(engine.SEAMS.map.items()) for k, v in m.__dict__.items())


def sandbox_putenv():
    from . import sandbox
    return sandbox.A.putenv


def os_settings():
    """What the operating system keeps for the process: creation mask, limits, processors, priority, time zone."""
    import resource, time
    m = None
    with open("/proc/self/status") as f:
        for l in f:
            if l.startswith("Umask:"):
                m = l.split()[1]
                break
    return (m, tuple(resource.getrlimit(getattr(resource, "RLIMIT_" + n)) for n in ("AS", "CORE", "CPU", "DATA", "FSIZE", "NOFILE", "STACK")),
            tuple(sorted(os.sched_getaffinity(0))), os.getpriority(os.PRIO_PROCESS, 0), time.tzname, time.timezone)


def restore_os(o):
    import resource
    if os_settings() == o:
        return
    os.umask(int(o[0], 8))
    for n, v in zip(("AS", "CORE", "CPU", "DATA", "FSIZE", "NOFILE", "STACK"), o[1]):
        try:
            resource.setrlimit(getattr(resource, "RLIMIT_" + n), v)
        except (ValueError, OSError):
            pass
    os.sched_setaffinity(0, o[2])
    try:
        os.setpriority(os.PRIO_PROCESS, 0, o[3])
    except OSError:
        pass


def _libs():
    """Settings kept inside the numeric and other libraries."""
    out = [scipy.fft.get_workers()]
    try:
        from scipy._lib import uarray
        out.append(repr(uarray.get_state().__reduce__()[1])[:400])
    except Exception:
        pass
    out += [socket.getdefaulttimeout(), faulthandler.is_enabled(), tracemalloc.is_tracing(), str(decimal.DefaultContext), atexit._ncallbacks(), tempfile.tempdir,
            multiprocessing.get_start_method(allow_none=True), id(asyncio.events._event_loop_policy)]
    if hasattr(np, "_get_promotion_state"):
        out.append(np._get_promotion_state())
    out.append((sys.get_asyncgen_hooks() == (None, None), sys.get_coroutine_origin_tracking_depth(), sys.flags.dev_mode))
    return tuple(map(repr, out))


def _logging():
    out = []
    for n, l in [("root", logging.root)] + sorted(logging.root.manager.loggerDict.items()):
        if isinstance(l, logging.Logger) and (n == "root" or not n.startswith("spafe")) and (n == "root" or l.level or l.handlers or l.disabled or not l.propagate or l.filters):
            out.append((n, l.level, tuple(map(id, l.handlers)), l.disabled, l.propagate, tuple(map(id, l.filters))))
    return (tuple(out), logging.root.manager.disable, logging.raiseExceptions, id(logging.getLoggerClass()))


def thread_wide():
    """Settings that belong to the calling thread (context)."""
    p = np.get_printoptions()
    return {"np.errstate": (np.geterr(), id(np.geterrcall())), "scipy.special.errstate": scipy.special.geterr(),
            "np.bufsize": np.getbufsize(), "np.printoptions": {k: (v if not isinstance(v, dict) else sorted(map(str, v.items()))) for k, v in p.items()},
            "decimal": str(decimal.getcontext()), "rounding": LIBM.fegetround(), "signal mask": signal.pthread_sigmask(signal.SIG_BLOCK, []),
            "thread name": threading.current_thread().name, "trace": (sys.gettrace(), sys.getprofile())}


def modules(world):
    """Attribute tables of the numeric libraries and of the package itself (by identity)."""
    out = {}
    for n in numeric_modules():
        d = sys.modules[n].__dict__
        out[n] = {k: id(v) for k, v in d.items()}
    if world is not None:
        for n, m in world.modules.items():
            out[n] = {k: id(v) for k, v in m.__dict__.items() if k not in ("__warningregistry__", "__builtins__")}
    return out


def public_module_changes(a, b):
    """Differences a host program can see. Inside the package only public names count (private
    ones are the library's own business); rebinding numpy/scipy attributes always counts."""
    out = []
    for n, d in a.items():
        e = b.get(n)
        if e is None:
            continue
        own = n == "spafe" or n.startswith("spafe.")
        if d == e:
            continue
        for k in sorted(set(d) | set(e)):
            if k in ("__warningregistry__", "__cached__") or (own and k.startswith("_")):
                continue
            if d.get(k) != e.get(k):
                if k not in d and not own and (n + "." + k) in sys.modules:
                    continue        # a lazily imported submodule
                if own and k not in d and k.startswith("_"):
                    continue
                out.append("%s.%s" % (n, k))
    return out


def spafe_public_values(world):
    """Digest of public constants and function attributes/defaults of the package."""
    from .digest import digest
    out = {}
    for n, m in world.modules.items():
        for k, v in list(m.__dict__.items()):
            if k.startswith("_"):
                continue
            if isinstance(v, (int, float, str, bytes, tuple, list, dict, set, np.ndarray, complex)):
                try:
                    out[n + "." + k] = digest(v)
                except Exception:
                    pass
            elif callable(v) and getattr(v, "__module__", None) == n and hasattr(v, "__defaults__"):
                out[n + "." + k + "()"] = digest([x if isinstance(x, (int, float, str, tuple, list, dict, np.ndarray, type(None))) else 0
                                                  for x in (v.__defaults__ or ())])
    return out


def rc():
    m = sys.modules.get("matplotlib")
    if m is None:
        return None
    return {k: repr(m.rcParams._get(k) if hasattr(m.rcParams, "_get") else dict.__getitem__(m.rcParams, k)) for k in m.rcParams}


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


class Guard:
    """Saves everything at process start and puts it back between runs."""

    def __init__(self):
        self.w = list(warnings.filters)
        self.show = warnings.showwarning
        self.warnfns = {k: warnings.__dict__[k] for k in ("warn", "warn_explicit", "showwarning", "formatwarning")}
        self.err = np.geterr()
        self.print = np.get_printoptions()
        self.bufsize = np.getbufsize()
        self.npr = np.random.get_state()
        self.r = random.getstate()
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        self.sig = {s: signal.getsignal(s) for s in _SIGS}
        self.lim = (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold())
        self.sys = {a: getattr(sys, a) for a in _SYSA}
        self.loc = locale.setlocale(locale.LC_ALL)
        self.path = list(sys.path)
        self.argv = list(sys.argv)
        self.tname = threading.current_thread().name
        self.os = os_settings()
        self.log = (logging.root.level, list(logging.root.handlers), logging.root.manager.disable)
        self.hooks = (threading.excepthook, threading._trace_hook, threading._profile_hook)
        self.libs = (socket.getdefaulttimeout(), tempfile.tempdir, asyncio.events._event_loop_policy, sys.get_int_max_str_digits(), sys.get_asyncgen_hooks(), sys.get_coroutine_origin_tracking_depth(),
                     scipy.special.geterr(), LIBM.fegetround(), signal.pthread_sigmask(signal.SIG_BLOCK, []), threading.stack_size(), faulthandler.is_enabled(), multiprocessing.get_start_method(allow_none=True),
                     decimal.getcontext().copy())
        self.mods = {n: dict(sys.modules[n].__dict__) for n in numeric_modules()}
        self.rc = None
        if "matplotlib" in sys.modules:
            self.rc = sys.modules["matplotlib"].rcParams.copy()

    def restore(self):
        HOST.reset()
        sys.argv[:] = self.argv
        threading.current_thread().name = self.tname
        restore_os(self.os)
        if warnings.filters != self.w:
            warnings.filters[:] = self.w
            warnings._filters_mutated()
        for n, d in self.mods.items():
            m = sys.modules[n].__dict__
            if len(m) != len(d) or any(m.get(k) is not v for k, v in d.items()):
                for k, v in d.items():
                    if m.get(k) is not v:
                        m[k] = v
                for k in [k for k in m if k not in d]:
                    if not isinstance(m[k], types.ModuleType) and k != "__warningregistry__":
                        del m[k]
        warnings.__dict__.update(self.warnfns)
        warnings.showwarning = self.show
        np.seterr(**self.err)
        np.seterrcall(None)
        if np.getbufsize() != self.bufsize:
            np.setbufsize(self.bufsize)
        now = np.get_printoptions()
        if now != self.print:
            np.set_printoptions(**{k: v for k, v in self.print.items() if now.get(k) != v})
        np.random.set_state(self.npr)
        random.setstate(self.r)
        for k in list(os.environ):
            if k not in self.env:
                del os.environ[k]
        for k, v in self.env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v
        try:
            same = os.getcwd() == self.cwd
        except OSError:
            same = False
        if not same:
            os.chdir(self.cwd)
        if threading.current_thread() is threading.main_thread():
            for s, h in self.sig.items():
                if signal.getsignal(s) is not h and h is not None:
                    signal.signal(s, h)
            for t in _TIMERS:
                signal.setitimer(t, 0)
        self.restore_libs()
        if sys.getrecursionlimit() != self.lim[0]:
            sys.setrecursionlimit(self.lim[0])
        if sys.getswitchinterval() != self.lim[1]:
            sys.setswitchinterval(self.lim[1])
        (gc.enable if self.lim[2] else gc.disable)()
        gc.set_threshold(*self.lim[3])
        for a, v in self.sys.items():
            setattr(sys, a, v)
        locale.setlocale(locale.LC_ALL, self.loc)
        locale._override_localeconv = {}
        if sys.path != self.path:
            sys.path[:] = self.path
        logging.root.setLevel(self.log[0])
        logging.root.handlers[:] = self.log[1]
        logging.root.manager.disable = self.log[2]
        if self.rc is not None:
            m = sys.modules["matplotlib"]
            if dict(m.rcParams) != dict(self.rc):
                dict.update(m.rcParams, self.rc)


    def restore_libs(self):
        threading.excepthook, threading._trace_hook, threading._profile_hook = self.hooks
        socket.setdefaulttimeout(self.libs[0])
        tempfile.tempdir = self.libs[1]
        asyncio.events._event_loop_policy = self.libs[2]
        if sys.get_int_max_str_digits() != self.libs[3]:
            sys.set_int_max_str_digits(self.libs[3])
        sys.set_asyncgen_hooks(*self.libs[4])
        sys.set_coroutine_origin_tracking_depth(self.libs[5])
        scipy.special.seterr(**self.libs[6])
        LIBM.fesetround(self.libs[7])
        signal.pthread_sigmask(signal.SIG_SETMASK, self.libs[8])
        if threading.stack_size() != self.libs[9]:
            threading.stack_size(self.libs[9])
        if faulthandler.is_enabled() and not self.libs[10]:
            faulthandler.disable()
        if multiprocessing.get_start_method(allow_none=True) != self.libs[11]:
            multiprocessing.context._default_context._actual_context = None
        decimal.setcontext(self.libs[12].copy())
        multiprocessing.current_process().name = "MainProcess"
        if sys.gettrace() is _notrace:
            sys.settrace(None)
        if sys.getprofile() is _notrace:
            sys.setprofile(None)
        from . import engine
        if engine.SEAMS is not None:
            engine.SEAMS.restore()


GUARD = None


def guard():
    global GUARD
    if GUARD is None:
        GUARD = Guard()
    return GUARD


# ------------------------------------------------------------------ host programs with settings of their own (C06, C14)
def _handler(*a):
    return None


def vary_thread(v):
    """Settings of the calling thread other than the defaults: putting defaults back is a change, too."""
    if v == 1:
        np.seterr(all="ignore")
        np.set_printoptions(precision=3, suppress=True)
        decimal.getcontext().prec = 13
    elif v == 2:
        np.seterr(divide="ignore", invalid="ignore", over="warn", under="warn")
        np.set_printoptions(threshold=77, linewidth=99)
        np.setbufsize(16384)
        scipy.special.seterr(singular="warn")
    elif v == 3:
        np.seterr(divide="warn", invalid="ignore", over="ignore", under="ignore")
        np.seterrcall(_handler)


def vary(v):
    """Process-wide settings other than the defaults (on the main thread)."""
    if not v:
        return
    if v == 1:
        warnings.filterwarnings("ignore", category=DeprecationWarning)
        warnings.filterwarnings("once", message="simulated host filter")
        gc.set_threshold(501, 7, 9)
        for s in (signal.SIGPIPE, signal.SIGTERM, signal.SIGHUP):
            signal.signal(s, signal.SIG_DFL)
        signal.signal(signal.SIGUSR1, _handler)
        sys.setrecursionlimit(1777)
        logging.root.setLevel(logging.INFO)
        random.seed(5)
        np.random.seed(5)
    elif v == 2:
        warnings.filterwarnings("ignore", module="simulated")
        gc.disable()
        signal.signal(signal.SIGPIPE, _handler)
        signal.signal(signal.SIGALRM, _handler)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        sys.setswitchinterval(0.003)
        sys.setrecursionlimit(2500)
        logging.disable(logging.DEBUG)
        sys.excepthook = _handler
        os.environ["OMP_NUM_THREADS"] = "3"
    elif v == 3:
        del warnings.filters[1:]
        warnings._filters_mutated()
        warnings.filterwarnings("always", category=RuntimeWarning)
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        signal.signal(signal.SIGFPE, _handler)
        os.environ.pop("HOME", None)
        os.environ["MPLBACKEND"] = "svg"
        sys.displayhook = _handler
        random.seed(7)
        socket.setdefaulttimeout(4.0)
        m = sys.modules.get("matplotlib")
        if m is not None:
            dict.update(m.rcParams, {"lines.linewidth": 2.5, "font.size": 11.0, "image.cmap": "gray"})
    vary_thread(v)


# ------------------------------------------------------------------ perturbations (C07)
def perturb(eng, f):
    """Change the surroundings of the run; `f` is a plan entry."""
    k = f.get("k") if f.get("k") != None else f.get("act")
    k = f.get("w", k)
    v = f.get("v")
    from . import engine
    if k == "clock":
        engine.SEAMS.clock.jump(v)
    elif k == "pace":
        engine.SEAMS.clock.pace = v
    elif k == "npseed":
        np.random.seed(v)
    elif k == "seed":
        random.seed(v)
    elif k == "draw":
        np.random.random(v)
        random.random()
    elif k == "env":
        for n, x in v.items():
            if x is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = x
    elif k == "cwd":
        os.makedirs(v, exist_ok=True)
        if not v.endswith("0"):
            populate(v)
            os.environ["HOME"] = os.environ["XDG_CONFIG_HOME"] = v
        os.chdir(v)
    elif k == "newthread":
        engine.SEAMS.who = v
        threading.current_thread().name = "Thread-%d" % v
    elif k == "gcoff":
        gc.disable()
    elif k == "gcon":
        gc.enable()
    elif k == "recursion":
        sys.setrecursionlimit(v)
    elif k == "switchint":
        sys.setswitchinterval(v)
    elif k == "entropy":
        ENTROPY.r = random.Random(v)
    elif k == "host":
        HOST.values.update(v)
    elif k == "argv":
        sys.argv[:] = v
    elif k == "tname":
        threading.current_thread().name = v
    elif k == "threads":
        HOST.crowd(v)
    elif k == "stdout":
        import io
        sys.stdout = io.StringIO() if v == 1 else Terminal() if v == 2 else io.TextIOWrapper(io.BytesIO(), encoding="ascii")
    elif k == "locale":
        locale._override_localeconv = {"decimal_point": ",", "thousands_sep": ".", "grouping": [3, 0]} if v else {}
    elif k == "mpname":
        multiprocessing.current_process().name = v
    elif k == "tracing":
        sys.settrace(_notrace if v & 1 else None)
        sys.setprofile(_notrace if v & 2 else None)
    else:
        raise RuntimeError("unknown perturbation %r" % (k,))


def populate(d):
    """Files by the names that occur in the package, in the working and home directory (all below the scratch directory)."""
    from . import loader
    text = {"1": "0.5\n", "2": '{"a": 1, "debug": true}\n', "3": "[spafe]\nvalue = 1\n"}.get(d[-1], "1\n")
    for n in sorted(loader.source().files):
        p = os.path.normpath(os.path.join(d, n.lstrip("~").lstrip("/")))
        if p.startswith(d + os.sep) and not os.path.exists(p):
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(text)
            except OSError:
                pass


def _notrace(*a):
    return None


class Terminal(io.StringIO):
    def isatty(self):
        return True


class Host:
    """What the machine and the process tell about themselves when the package asks."""
    FIELDS = {"pid": [1, 2, 4242, 99998], "cpus": [1, 2, 3, 64, None], "load": [0.0, 0.5, 37.0], "host": ["a", "build-7", "localhost"], "pages": [1000, 1 << 18, 1 << 26], "rss": [1, 10 ** 7],
              "user": ["root", "nobody"], "uid": [0, 1000, 65534], "machine": ["x86_64", "aarch64"], "tty": [True, False]}

    def __init__(self):
        self.values = {}
        self.extra = []
        self.forced = False
        self.on = False
        self.asked = 0

    def install(self, live):
        import getpass, multiprocessing, platform, resource, socket
        if self.on:
            return
        self.on = True

        def wrap(mod, name, field, make=lambda v, real, a: v):
            real = getattr(mod, name, None)
            if real is None:
                return

            def f(*a, **k):
                if field in self.values and (self.forced or live()):
                    self.asked += 1
                    return make(self.values[field], real, a)
                return real(*a, **k)
            f.__name__ = name
            setattr(mod, name, f)
        wrap(os, "getpid", "pid")
        wrap(os, "getppid", "pid", lambda v, r, a: v + 1)
        wrap(os, "getpgrp", "pid")
        wrap(os, "cpu_count", "cpus")
        wrap(multiprocessing, "cpu_count", "cpus", lambda v, r, a: v or 1)
        wrap(os, "sched_getaffinity", "cpus", lambda v, r, a: set(range(v or 1)))
        wrap(os, "getloadavg", "load", lambda v, r, a: (v, v / 2, v / 3))
        un = lambda v, r, a: os.uname_result(("Linux", v, "6.1", "#1", self.values.get("machine", "x86_64")))
        wrap(os, "uname", "host", un)
        wrap(platform, "node", "host")
        wrap(socket, "gethostname", "host")
        wrap(platform, "machine", "machine")
        wrap(platform, "processor", "machine")
        wrap(os, "sysconf", "pages", lambda v, r, a: v if "PAGES" in str(a[:1]) else (self.values.get("cpus") or 1) if "NPROC" in str(a[:1]) else r(*a))
        wrap(resource, "getrusage", "rss", lambda v, r, a: resource.struct_rusage((v / 1e3, v / 2e3, v) + tuple([v] * 13)))
        wrap(getpass, "getuser", "user")
        wrap(os, "getlogin", "user")
        wrap(os, "getuid", "uid")
        wrap(os, "geteuid", "uid")
        wrap(os, "isatty", "tty")

    def crowd(self, n):
        """n more idle threads exist in the process."""
        import _thread
        while len(self.extra) < n:
            ev = threading.Event()

            def idle(ev=ev):
                ev.wait(600)
            t = threading.Thread(target=idle, daemon=True, name="crowd-%d" % len(self.extra))
            t.start()
            HARNESS.add(t.ident)
            self.extra.append((t, ev))
        while len(self.extra) > n:
            t, ev = self.extra.pop()
            ev.set()
            t.join()

    def reset(self):
        self.values.clear()
        self.forced = False
        self.crowd(0)


HARNESS = set()
HOST = Host()


class Entropy:
    """Stands in for the operating system's entropy."""

    def __init__(self):
        self.r = random.Random(1)
        self.reads = 0
        self.real = os.urandom

    def urandom(self, n):
        self.reads += 1
        return self.r.randbytes(n)


ENTROPY = Entropy()


def install_entropy():
    import secrets
    os.urandom = ENTROPY.urandom
    random._urandom = ENTROPY.urandom
    try:
        from numpy.random import bit_generator as bg
        bg.randbits = lambda k: ENTROPY.r.getrandbits(k)     # numpy's SeedSequence source
    except Exception:
        pass
    secrets.token_bytes = lambda n=32: ENTROPY.urandom(n)
