"""Keeps what simulated calls do away from the real system, and records it.

An audit hook sees file, process and network operations of the code under test. Operations that
would change anything outside the scratch directory, start processes or open connections are
refused with PermissionError (so a planted deletion or download never happens) and recorded.
Environment reads of the code under test are recorded too, so that the search can vary them.
"""
import _thread, os, sys

SCRATCH = None
get_ident = _thread.get_ident
WRITES = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime",
          "shutil.rmtree", "shutil.move", "shutil.copyfile", "os.setxattr", "os.removexattr", "shutil.copytree", "os.chflags", "os.lchown"}
READS = {"os.listdir", "os.scandir", "os.walk", "os.fwalk", "glob.glob", "pathlib.Path.glob", "os.getxattr", "os.listxattr", "mmap.__new__",
         "shutil.copymode", "shutil.copystat", "tempfile.mkstemp", "tempfile.mkdtemp", "sqlite3.connect", "fcntl.flock", "fcntl.lockf"}
PROCS = ("subprocess.", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "pty.spawn", "os.startfile", "os.kill",
         "os.killpg", "signal.pthread_kill")
NETS = ("socket.connect", "socket.bind", "socket.sendto", "socket.getaddrinfo", "socket.gethostby", "socket.__new__", "socket.sendmsg", "urllib.", "http.",
        "ftplib.", "smtplib.", "webbrowser.", "syslog.", "imaplib.", "poplib.", "nntplib.", "telnetlib.")


class Audit:
    def __init__(self):
        self.on = False
        self.events = []
        self.depth = 0
        self.putenv = 0
        self.live = None        # callable: is the current thread inside a simulated call?


A = Audit()


def _under(path):
    try:
        p = os.path.realpath(os.fspath(path) if not isinstance(path, int) else "/")
    except Exception:
        return False
    if isinstance(p, bytes):
        p = p.decode("utf8", "replace")
    return bool(SCRATCH) and (p == SCRATCH or p.startswith(SCRATCH + os.sep))


def loading(event, args):
    """The interpreter itself reading the code of a module, or memory that is no file."""
    if event == "mmap.__new__":
        return bool(args) and args[0] == -1
    if event not in ("open", "os.listdir", "os.scandir"):
        return False
    return sys._getframe(2).f_code.co_filename.startswith("<frozen ")


def _hook(event, args):
    if not A.on:
        return
    c = event[0]
    if c not in "ospgtmufhwin":
        return
    kind = None
    if event in ("os.putenv", "os.unsetenv"):
        if A.live():
            A.putenv += 1
        return
    if event == "open":
        kind = "open"
    elif event in WRITES:
        kind = "write"
    elif event in READS:
        kind = "read"
    elif event.startswith(PROCS):
        kind = "proc"
    elif event.startswith(NETS):
        kind = "net"
    if kind is None or not A.live() or loading(event, args):
        return
    if len(A.events) > 500:
        del A.events[250:]
    if event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        if isinstance(path, int):
            return
        w = (isinstance(mode, str) and any(x in mode for x in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        A.events.append(("open for writing" if w else "open", str(path)))
        if w and not _under(path):
            raise PermissionError("simulated host: refused to write %s" % path)
        return
    A.events.append((event, str(args[0])[:120] if args else ""))
    if kind in ("proc", "net"):
        raise PermissionError("simulated host: refused %s" % event)
    if kind == "write":
        for a in args[:2]:
            if isinstance(a, (str, bytes)) and not _under(a):
                raise PermissionError("simulated host: refused %s" % event)


def install(live, scratch):
    global SCRATCH
    SCRATCH = os.path.realpath(scratch)
    A.live = live
    sys.addaudithook(_hook)
    A.on = True


class EnvData(dict):
    """os.environ's storage; remembers which variables simulated calls look up."""
    reads = set()
    live = staticmethod(lambda: False)

    def __getitem__(self, k):
        if EnvData.live():
            EnvData.reads.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        if EnvData.live():
            EnvData.reads.add(k)
        return dict.__contains__(self, k)


def watch_env(live):
    EnvData.live = staticmethod(live)
    os.environ._data = EnvData(os.environ._data)


def env_reads():
    return sorted(k.decode("utf8", "replace") if isinstance(k, bytes) else str(k) for k in EnvData.reads)
