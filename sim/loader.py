"""Loads fresh, independent instances ("worlds") of the spafe package from /repo's working tree.

A world is what a freshly started process has after importing the package: every module is
executed anew from source (no bytecode cache). Code objects are compiled once per process and
shared by all worlds, so that the monitoring hooks set on them cover every world.
Modules of a world see the simulator's clock and threading instead of the real ones
(``import time`` / ``import threading`` inside the package resolve to sim.seams).
"""
import ast, builtins, re, importlib, importlib.abc, importlib.machinery, importlib.util, os, sys, types, dis

REPO = os.environ.get("SPAFE_SIM_REPO", "/repo")
PKG = "spafe"


def discover():
    """name -> (path, is_package) for every module of the package."""
    out = {}
    root = os.path.join(REPO, PKG)
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__" and os.path.exists(os.path.join(d, x, "__init__.py")))
        rel = os.path.relpath(d, REPO).replace(os.sep, ".")
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            if f == "__init__.py":
                out[rel] = (p, True)
            else:
                out[rel + "." + f[:-3]] = (p, False)
    return out


def walk_code(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from walk_code(k)


FILE = re.compile(r"(~?/)?[\w.-]*([./][\w-]+)+|~?/?\.?[a-z]+rc|[A-Z]{4,}")


class Source:
    """The package's source, compiled once."""

    def __init__(self):
        import warnings
        self.mods = discover()
        self.code = {}
        self.codes = []          # all code objects
        self.files = set()       # string constants that look like names of files (search guidance only)
        self.with_lines = set()  # (path, line) of `with` headers, and of ends of exception handlers: no place for an exception out of nowhere
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for name, (path, ispkg) in self.mods.items():
                src = open(path, "rb").read()
                c = compile(src, path, "exec", dont_inherit=True)
                self.code[name] = c
                self.codes += list(walk_code(c))
                for n in ast.walk(ast.parse(src)):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 60 and FILE.fullmatch(n.value):
                        self.files.add(n.value)
                    if isinstance(n, (ast.With, ast.AsyncWith)):
                        last = max([n.lineno] + [getattr(i.context_expr, "end_lineno", n.lineno) for i in n.items])
                        for l in range(n.lineno, last + 1):
                            self.with_lines.add((path, l))
        import dis
        for c in self.codes:
            for x in dis.get_instructions(c):
                if x.starts_line is not None and x.opname == "POP_EXCEPT":      # outside of the handler's own cleanup already
                    self.with_lines.add((c.co_filename, x.starts_line))
        self.index = {c: i for i, c in enumerate(self.codes)}
        self.code_id = {}
        for c in self.codes:
            self.code_id[c] = "%s:%s:%d" % (os.path.relpath(c.co_filename, REPO), c.co_name, c.co_firstlineno)


SOURCE = None


def source():
    global SOURCE
    if SOURCE is None:
        SOURCE = Source()
    return SOURCE


class _Loader(importlib.abc.Loader):
    def __init__(self, name, world_seams):
        self.name, self.seams = name, world_seams

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        if self.seams is not None:
            b = dict(builtins.__dict__)
            b["__import__"] = self.seams.import_
            mod.__dict__["__builtins__"] = b
        exec(source().code[self.name], mod.__dict__)

    # so that inspect/linecache/pickle keep working
    def get_filename(self, name):
        return source().mods[self.name][0]

    def get_source(self, name):
        return open(source().mods[self.name][0]).read()

    def is_package(self, name):
        return source().mods[self.name][1]


class Finder(importlib.abc.MetaPathFinder):
    seams = None

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        m = source().mods.get(name)
        if m is None:
            return None
        ld = _Loader(name, self.seams)
        spec = importlib.machinery.ModuleSpec(name, ld, origin=m[0], is_package=m[1])
        if m[1]:
            spec.submodule_search_locations = [os.path.dirname(m[0])]
        spec.has_location = True
        spec.cached = None
        return spec


FINDER = Finder()


def install(seams=None):
    FINDER.seams = seams
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    sys.dont_write_bytecode = True


def purge():
    """Forget the loaded package (as if the process had restarted)."""
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]


class World:
    """One fresh instance of the package."""

    def __init__(self, order=None):
        purge()
        for name in (order or source().mods):
            importlib.import_module(name)
        self.modules = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}

    def activate(self):
        purge()
        sys.modules.update(self.modules)

    def get(self, ref):
        """'features.mfcc:mfcc' -> function, or None if the tree has no such function."""
        m, _, f = ref.partition(":")
        mod = self.modules.get(PKG + "." + m)
        return getattr(mod, f, None) if mod is not None else None


_IMMUTABLE = (type(None), bool, int, float, complex, str, bytes, tuple, frozenset, type, types.ModuleType,
              types.FunctionType, types.BuiltinFunctionType, types.CodeType, range)


def hot_lines(world):
    """{(code index, line)} where code touches state that outlives a call: mutable module-level
    objects, global stores, attributes of functions, mutable defaults. Search guidance only."""
    import numpy as np
    src = source()
    hot = set()
    for name, top in src.code.items():
        mod = world.modules.get(name)
        if mod is None:
            continue
        g = mod.__dict__
        for c in walk_code(top):
            if c is top:
                continue
            lines = set()
            line = c.co_firstlineno
            prev_fn = False
            for ins in dis.get_instructions(c):
                if ins.positions and ins.positions.lineno:
                    line = ins.positions.lineno
                if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF"):
                    lines.add(line)
                elif ins.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                    v = g.get(ins.argval, None)
                    if v is not None and not isinstance(v, _IMMUTABLE) and not isinstance(v, np.ufunc) \
                            and not type(v).__module__.startswith(("typing", "typing_extensions")) \
                            and type(v).__name__ not in ("_ArrayFunctionDispatcher", "ufunc", "type", "partial"):
                        lines.add(line)
                    if ins.opname == "LOAD_GLOBAL" and ins.argval in g and isinstance(v, types.FunctionType):
                        prev_fn = True
                        continue
                elif ins.opname in ("STORE_ATTR",) or (prev_fn and ins.opname == "LOAD_ATTR"):
                    lines.add(line)
                prev_fn = False
            for l in lines:
                hot.add((src.index[c], l))
    return hot


_MUTATORS = {"seterr", "seterrcall", "errstate", "setbufsize", "set_printoptions", "printoptions", "simplefilter", "filterwarnings", "catch_warnings", "resetwarnings",
             "environ", "putenv", "unsetenv", "chdir", "seed", "set_state", "setrecursionlimit", "setswitchinterval", "setattr", "delattr", "rcParams", "rc", "acquire",
             "release", "setlocale", "signal", "settrace", "setprofile", "basicConfig", "setLevel", "disable", "enable", "set_threshold", "__dict__", "globals", "cache_clear",
             "contextvars", "local", "umask", "setitimer", "alarm", "style", "use", "update", "setdefault", "pop", "popitem", "clear", "open", "start"}


def guarded_lines():
    """{(code index, line)} inside try statements, with statements and between calls that look like
    changing the surroundings and back. Search guidance only."""
    src = source()
    marks = set()
    for name, (path, _) in src.mods.items():
        tree = ast.parse(open(path, "rb").read())
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            hit = []
            for n in ast.walk(fn):
                if isinstance(n, (ast.Try, ast.With, ast.Global, ast.Nonlocal)) or n.__class__.__name__ == "TryStar":
                    marks.update((path, l) for l in range(n.lineno, n.end_lineno + 1))
                elif isinstance(n, ast.Attribute) and n.attr in _MUTATORS or isinstance(n, ast.Name) and n.id in _MUTATORS:
                    hit.append(n.lineno)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Attribute, ast.Subscript)):
                    hit.append(n.lineno)
            if hit:
                marks.update((path, l) for l in range(min(hit), max(hit) + 2))
    out = set()
    for c in src.codes:
        for _, _, l in c.co_lines():
            if l and (c.co_filename, l) in marks:
                out.add((src.index[c], l))
    return out


def state(world):
    """Digest of everything the package's modules hold outside of calls. Search guidance only."""
    import numpy as np
    seen = set()
    budget = [20000]

    def d(v, depth):
        budget[0] -= 1
        if budget[0] < 0 or depth > 6:
            return "..."
        if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
            return v
        if isinstance(v, types.ModuleType):
            return v.__name__
        if id(v) in seen:
            return "seen"
        if isinstance(v, (list, tuple, set, frozenset, dict, np.ndarray, types.FunctionType, type)) or hasattr(v, "__dict__") or hasattr(v, "cache_info"):
            seen.add(id(v))
        if isinstance(v, (list, tuple)) or type(v).__name__ == "deque":
            return (type(v).__name__, len(v), [d(x, depth + 1) for x in list(v)[:50]])
        if isinstance(v, (set, frozenset)):
            return (type(v).__name__, len(v))
        if isinstance(v, dict):
            return ("dict", len(v), [(repr(k)[:40] if isinstance(k, (str, int, float, tuple)) else type(k).__name__, d(x, depth + 1)) for k, x in list(v.items())[:80]])
        if isinstance(v, np.ndarray):
            return ("arr", v.shape, v.dtype.str, hash(v.tobytes()) if v.dtype != object and v.nbytes < 1 << 20 else 0)
        if hasattr(v, "cache_info"):
            return ("cache", tuple(v.cache_info()))
        if isinstance(v, types.FunctionType):
            if not (v.__module__ or "").startswith(PKG):
                return v.__name__
            cells = []
            for c in v.__closure__ or ():
                try:
                    cells.append(d(c.cell_contents, depth + 1))
                except ValueError:
                    cells.append("empty")
            return ("fn", v.__name__, d(v.__dict__, depth + 1), d(v.__defaults__, depth + 1), d(v.__kwdefaults__, depth + 1), cells)
        if isinstance(v, type):
            if not (v.__module__ or "").startswith(PKG):
                return v.__name__
            return ("cls", v.__name__, [(k, d(x, depth + 1)) for k, x in vars(v).items() if not k.startswith("__")])
        if isinstance(v, (types.BuiltinFunctionType, types.MethodType, np.ufunc)) or (getattr(type(v), "__module__", "") or "").startswith(("typing", "numpy", "scipy", "dataclasses")):
            return type(v).__name__
        return (type(v).__name__, d(getattr(v, "__dict__", None), depth + 1))
    out = []
    for name in sorted(world.modules):
        for k, v in list(world.modules[name].__dict__.items()):
            if not k.startswith("__"):
                out.append((name, k, d(v, 0)))
    return out


def places(world, budget=4000):
    """Where the package's modules hold what: [(container, place, value)]. Search guidance only."""
    seen, out = set(), []
    work = [m.__dict__ for m in world.modules.values()]
    while work and budget > 0:
        v = work.pop()
        budget -= 1
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, dict):
            items = [(k, x) for k, x in list(v.items())[:200] if not (isinstance(k, str) and k.startswith("__"))]
        elif isinstance(v, list):
            items = list(enumerate(v[:200]))
        else:
            continue
        for k, x in items:
            out.append((v, k, x))
            if isinstance(x, (dict, list)):
                work.append(x)
            elif not isinstance(x, types.ModuleType) and (getattr(type(x), "__module__", None) or "").split(".")[0] == PKG:
                work.append(getattr(x, "__dict__", None))
    return out


def rewritten(before):
    """Some place of `before` holds another object now (equal or not)."""
    for v, k, x in before:
        try:
            if v[k] is not x:
                return True
        except (KeyError, IndexError):
            return True
    return False


def held_size(world):
    """Bytes of all that the package's modules hold, in whatever containers, caches or closures."""
    sizes = []
    held(world, 300000, sizes)
    return sum(sizes)


def held(world, budget=6000, sizes=None):
    """The arrays that the package's modules hold outside of calls, in whatever containers, caches or closures."""
    import gc
    import numpy as np
    seen, out = set(), []
    work = [m.__dict__ for m in world.modules.values()]
    dicts = {id(d) for d in work}
    own = lambda v: (getattr(v, "__module__", None) or "").split(".")[0] == PKG
    while work and budget > 0:
        v = work.pop()
        budget -= 1
        if id(v) in seen:
            continue
        seen.add(id(v))
        if sizes is not None:
            sizes.append(sys.getsizeof(v, 0))
        if isinstance(v, np.ndarray):
            out.append(v)
            if v.dtype != object:
                continue
        if isinstance(v, dict) and id(v) in dicts:
            work.extend(x for k, x in v.items() if k not in ("__builtins__", "__spec__", "__loader__"))
            continue
        if isinstance(v, dict) and "__builtins__" in v:        # another module's globals
            continue
        for x in gc.get_referents(v):
            if x is None or isinstance(x, (bool, int, float, complex, str, bytes, types.ModuleType, types.CodeType, types.BuiltinFunctionType, types.FrameType)):
                continue
            if isinstance(x, (type, types.FunctionType)) and not own(x):
                continue
            if (getattr(type(x), "__module__", None) or "").split(".")[0] in ("sim", "importlib", "_frozen_importlib", "_frozen_importlib_external"):
                continue
            work.append(x)
    return out


def constants():
    """Numbers the package compares things with: where its behaviour may change. Search guidance only."""
    out = set()
    for name, (path, _) in source().mods.items():
        for n in ast.walk(ast.parse(open(path, "rb").read())):
            if isinstance(n, ast.Compare) or (isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.BitAnd))):
                for x in ast.walk(n):
                    if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                        out.add(x.value)
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)) \
                    and not isinstance(n.value.value, bool):
                out.add(n.value.value)
    return sorted(out)


def constants_of(code):
    """The numbers a function compares with, those of its module otherwise. Search guidance only."""
    out, near = set(), set()
    end = max([l for _, _, l in code.co_lines() if l] or [0])
    for n in ast.walk(ast.parse(open(code.co_filename, "rb").read())):
        if isinstance(n, (ast.Compare, ast.BinOp, ast.Assign, ast.Call)):
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                    out.add(x.value)
                    if isinstance(n, ast.Compare) and code.co_firstlineno <= n.lineno <= end:
                        near.add(x.value)
    near = {x for x in near if abs(x) >= 2}
    return sorted(near) or sorted(x for x in out if abs(x) >= 2)


def env_names():
    """String constants of the package that look like names of environment variables. Search guidance only."""
    out = set()
    for name, (path, _) in source().mods.items():
        for n in ast.walk(ast.parse(open(path, "rb").read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Z][A-Z0-9]*_[A-Z0-9_]+|HOME|TZ|USER|PWD|LANG|HOSTNAME|DEBUG", n.value):
                out.add(n.value)
    return sorted(out)

