"""Simulated clock, threading primitives and entropy seen by the package under test.

The current tree imports none of these modules; they exist so that a change that starts
using them is simulated rather than left to real time and real blocking.
"""
import builtins, types, sys


class SimAbort(BaseException):
    """Raised by the simulator to unwind a task whose run is over (deadlock, step bound)."""


class Clock:
    def __init__(self):
        self.now = 1_700_000_000.0
        self.reads = 0
        self.slept = 0.0
        self.pace = 1e-6                 # time that passes from one reading to the next

    def read(self):
        self.reads += 1
        self.now += self.pace
        return self.now

    def jump(self, d):
        self.now += d


class Seams:
    """One per simulated process; `eng` is the running engine (or None)."""

    def __init__(self):
        self.clock = Clock()
        self.eng = None
        self.locks_made = 0
        self.lock_waits = 0
        self.who = 0                     # as many threads have come and gone
        self.map = {"time": self._time(), "threading": self._threading(), "_thread": self._thread(),
                    "datetime": self._datetime()}
        self.map["queue"] = self._queue()
        self.saved = {n: dict(m.__dict__) for n, m in self.map.items()}

    def restore(self):
        for n, m in self.map.items():
            if m.__dict__ != self.saved[n]:
                m.__dict__.clear()
                m.__dict__.update(self.saved[n])

    # -- import seam
    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in self.map:
            return self.map[name]
        return builtins.__import__(name, globals, locals, fromlist, level)

    # -- time
    def _time(self):
        import time as real
        m = types.ModuleType("time")
        m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
        c = self.clock
        m.time = lambda: c.read()
        m.time_ns = lambda: int(c.read() * 1e9)
        m.monotonic = lambda: c.read() - 1.6e9
        m.monotonic_ns = lambda: int((c.read() - 1.6e9) * 1e9)
        m.perf_counter = m.monotonic
        m.perf_counter_ns = m.monotonic_ns
        m.process_time = m.monotonic
        m.process_time_ns = m.monotonic_ns
        m.thread_time = m.monotonic
        m.thread_time_ns = m.monotonic_ns
        m.clock_gettime = lambda k: c.read() if k == real.CLOCK_REALTIME else c.read() - 1.6e9
        m.clock_gettime_ns = lambda k: int(m.clock_gettime(k) * 1e9)

        def sleep(s):
            c.slept += s
            c.now += s
            if self.eng is not None:
                self.eng.yield_point()
        m.sleep = sleep
        m.localtime = lambda t=None: real.localtime(c.read() if t is None else t)
        m.gmtime = lambda t=None: real.gmtime(c.read() if t is None else t)
        m.strftime = lambda f, t=None: real.strftime(f, real.gmtime(c.read()) if t is None else t)
        m.ctime = lambda t=None: real.ctime(c.read() if t is None else t)
        return m

    def _datetime(self):
        import datetime as real
        c = self.clock

        class datetime(real.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(c.read(), tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(c.read(), real.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.fromtimestamp(c.read())

        class date(real.date):
            @classmethod
            def today(cls):
                d = real.datetime.fromtimestamp(c.read())
                return cls(d.year, d.month, d.day)
        m = types.ModuleType("datetime")
        m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
        m.datetime, m.date = datetime, date
        return m

    # -- queues on top of the simulated locks
    def _queue(self):
        import queue as real
        m = types.ModuleType("queue")
        b = dict(vars(builtins))
        b["__import__"] = self.import_
        m.__dict__["__builtins__"] = b
        with open(real.__file__) as f:
            exec(compile(f.read(), real.__file__, "exec"), m.__dict__)
        m.SimpleQueue = m._PySimpleQueue
        m.Empty, m.Full = real.Empty, real.Full
        return m

    # -- threading
    def _thread(self):
        import _thread as real
        m = types.ModuleType("_thread")
        m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
        m.allocate_lock = lambda: Lock(self)
        m.allocate = m.allocate_lock
        m.RLock = lambda: RLock(self)
        m.get_ident = lambda: real.get_ident() + self.who * 4096
        return m

    def _threading(self):
        import threading as real
        seams = self
        m = types.ModuleType("threading")
        m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith("__")})
        m.Lock = lambda: Lock(seams)
        m.get_ident = lambda: real.get_ident() + seams.who * 4096
        m.get_native_id = lambda: real.get_native_id() + seams.who
        m.RLock = lambda: RLock(seams)
        m.Condition = lambda lock=None: Condition(seams, lock)
        m.Event = lambda: Event(seams)
        m.Semaphore = lambda value=1: Semaphore(seams, value)
        m.BoundedSemaphore = m.Semaphore
        return m


class Lock:
    def __init__(self, seams):
        self.s = seams
        self.owner = None
        seams.locks_made += 1

    def acquire(self, blocking=True, timeout=-1):
        if self.owner is not None:
            if not blocking:
                return False
            if not self.s_wait(lambda: self.owner is None, timeout):
                return False
        self.owner = _me()
        return True

    def s_wait(self, pred, timeout):
        self.s.lock_waits += 1
        eng = self.s.eng
        if timeout is not None and timeout >= 0:
            # simulated time: others get to run once, then the deadline passes
            self.s.clock.now += timeout
            if eng is not None:
                eng.yield_point()
            return pred()
        if eng is None:
            raise SimAbort("deadlock outside the simulation: a lock is held and nobody will release it")
        eng.block_until(pred, self)
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class RLock(Lock):
    def __init__(self, seams):
        super().__init__(seams)
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner == _me():
            self.n += 1
            return True
        if super().acquire(blocking, timeout):
            self.n = 1
            return True
        return False

    def release(self):
        if self.owner != _me():
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def _is_owned(self):
        return self.owner == _me()


class Condition:
    def __init__(self, seams, lock=None):
        self.l = lock or RLock(seams)
        self.s = seams
        self.gen = 0
        self.acquire, self.release = self.l.acquire, self.l.release

    def __enter__(self):
        return self.l.__enter__()

    def __exit__(self, *a):
        return self.l.__exit__(*a)

    def wait(self, timeout=None):
        g = self.gen
        n = getattr(self.l, "n", 1)
        for _ in range(n):
            self.l.release()
        try:
            return self.l.s_wait(lambda: self.gen != g, timeout)
        finally:
            for _ in range(n):
                self.l.acquire()

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout) and timeout is not None:
                return pred()
        return True

    def notify(self, n=1):
        self.gen += 1
    notify_all = notifyAll = notify


class Event:
    def __init__(self, seams):
        self.l = Lock(seams)
        self.f = False

    def is_set(self):
        return self.f
    isSet = is_set

    def set(self):
        self.f = True

    def clear(self):
        self.f = False

    def wait(self, timeout=None):
        if self.f:
            return True
        self.l.s_wait(lambda: self.f, timeout)
        return self.f


class Semaphore:
    def __init__(self, seams, value=1):
        self.l = Lock(seams)
        self.v = value

    def acquire(self, blocking=True, timeout=None):
        if self.v <= 0:
            if not blocking:
                return False
            if not self.l.s_wait(lambda: self.v > 0, timeout):
                return False
        self.v -= 1
        return True

    def release(self, n=1):
        self.v += n

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _me():
    import _thread
    return _thread.get_ident()
