"""Forked workers with static sharding, hang detection and no shared state."""
import os, pickle, select, signal, struct, sys, time, traceback


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Worker:
    def __init__(self, idx, todo, fn, init):
        self.idx, self.todo, self.fn = idx, todo, fn
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r)
                os.setpgid(0, 0)
                if init:
                    init(idx)
                for i in todo:
                    _send(w, ("s", i))
                    try:
                        res = fn(i)
                    except BaseException:
                        _send(w, ("e", i, traceback.format_exc()))
                        continue
                    _send(w, ("r", i, res))
                _send(w, ("d",))
                code = 0
            except BaseException:
                try:
                    _send(w, ("e", -1, traceback.format_exc()))
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.buf = b""
        self.cur = None
        self.last = time.monotonic()
        self.alive = True

    def read(self):
        try:
            b = os.read(self.fd, 1 << 20)
        except OSError:
            b = b""
        if not b:
            self.close()
            return []
        self.last = time.monotonic()
        self.buf += b
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return out

    def close(self):
        if self.alive:
            self.alive = False
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(self.pid, signal.SIGKILL)
                except OSError:
                    pass
            os.close(self.fd)
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass


def run(jobs, fn, workers=8, hang_s=60, deadline_s=600, init=None, stop=None, on_result=None):
    """Runs fn(i) for i in jobs. Returns (results {i: res}, errors [(i, tb)], hung [i], complete)."""
    jobs = list(jobs)
    workers = max(1, min(workers, len(jobs)))
    res, errors, hung = {}, [], []
    ws = [Worker(k, jobs[k::workers], fn, init) for k in range(workers)]
    t0 = time.monotonic()
    stopped = complete = False
    try:
        while True:
            live = [w for w in ws if w.alive]
            if not live:
                complete = not stopped
                break
            rd, _, _ = select.select([w.fd for w in live], [], [], 1.0)
            now = time.monotonic()
            for w in live:
                if w.fd in rd:
                    for m in w.read():
                        if m[0] == "s":
                            w.cur = m[1]
                        elif m[0] == "r":
                            res[m[1]] = m[2]
                            w.cur = None
                            if on_result:
                                on_result(m[1], m[2])
                            if stop and stop(m[1], m[2]):
                                stopped = True
                        elif m[0] == "e":
                            errors.append((m[1], m[2]))
                            w.cur = None
                        elif m[0] == "d":
                            w.cur = "done"
                    if not w.alive and w.cur != "done":
                        # died: treat the job as crashed and go on with the rest of the shard
                        if w.cur is not None:
                            errors.append((w.cur, "worker process died (signal or exit) during this run"))
                            rest = w.todo[w.todo.index(w.cur) + 1:]
                        else:
                            rest = [j for j in w.todo if j not in res]
                        if rest and len(errors) < 20:
                            ws.append(Worker(w.idx, rest, fn, init))
                elif now - w.last > hang_s and w.cur not in (None, "done"):
                    hung.append(w.cur)
                    rest = w.todo[w.todo.index(w.cur) + 1:]
                    w.close()
                    if len(hung) < 3 and rest:
                        ws.append(Worker(w.idx, rest, fn, init))
                    else:
                        stopped = True
            if stopped or now - t0 > deadline_s:
                break
    finally:
        for w in ws:
            w.close()
    return res, errors, hung, complete
