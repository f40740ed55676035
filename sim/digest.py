"""Bit-exact, process-independent digests of values and exceptions."""
import hashlib, re
import numpy as np

_ADDR = re.compile(r"0x[0-9a-fA-F]{4,}")


def _arr(a, h):
    h.update(("A%s%s" % (a.dtype.str, a.shape)).encode())
    if a.dtype.kind == "O":
        for x in a.ravel().tolist():
            _val(x, h)
        return
    b = np.ascontiguousarray(a)
    if a.dtype.kind in "fc":
        n = np.isnan(b)
        if n.any():
            b = b.copy()
            b[n] = np.nan
    h.update(b.tobytes())


def _val(v, h):
    if isinstance(v, np.ndarray):
        if type(v) is not np.ndarray:
            h.update(type(v).__name__.encode())
        _arr(np.asarray(v), h)
    elif isinstance(v, np.generic):
        h.update(b"S")
        _arr(np.asarray(v), h)
    elif isinstance(v, (tuple, list)):
        h.update(("%s%d[" % (type(v).__name__, len(v))).encode())
        for x in v:
            _val(x, h)
        h.update(b"]")
    elif isinstance(v, dict):
        h.update(("D%d{" % len(v)).encode())
        for k, x in v.items():
            _val(k, h)
            _val(x, h)
    elif isinstance(v, float):
        h.update(("f" + ("nan" if v != v else v.hex())).encode())
    elif v is None or isinstance(v, (bool, int, str, bytes, complex)):
        h.update(("%s:%r;" % (type(v).__name__, v)).encode())
    elif isinstance(v, (set, frozenset)):
        h.update(("set%r" % sorted(map(repr, v))).encode())
    elif type(v).__module__.startswith("spafe"):
        h.update(type(v).__qualname__.encode())
        _val(dict(sorted(vars(v).items())) if hasattr(v, "__dict__") else repr(v), h)
    else:
        h.update(("%s~%s" % (type(v).__qualname__, _ADDR.sub("0x", repr(v)))).encode())


def digest(v):
    h = hashlib.sha1()
    _val(v, h)
    return h.hexdigest()[:20]


def exc_digest(e):
    return "%s: %s" % (type(e).__qualname__, _ADDR.sub("0x", str(e))[:300])


def brief(v, depth=0):
    """Short human-readable form for reports."""
    if isinstance(v, np.ndarray):
        f = v.ravel()[:3]
        return "array%s%s %s.." % (v.shape, v.dtype.str, [x.item() if hasattr(x, "item") else x for x in f])
    if isinstance(v, (tuple, list)) and depth < 2:
        return "(" + ", ".join(brief(x, depth + 1) for x in v[:4]) + ")"
    return repr(v)[:80]


def arrays_in(v, out=None, depth=0):
    """All numpy arrays reachable in a result."""
    if out is None:
        out = []
    if isinstance(v, np.ndarray):
        out.append(v)
        if v.dtype.kind == "O" and depth < 4:
            for x in v.ravel().tolist():
                arrays_in(x, out, depth + 1)
    elif isinstance(v, (tuple, list)) and depth < 4:
        for x in v:
            arrays_in(x, out, depth + 1)
    elif isinstance(v, dict) and depth < 4:
        for x in v.values():
            arrays_in(x, out, depth + 1)
    return out


def containers_in(v, out=None, depth=0):
    """Mutable containers (lists, dicts) reachable in a result."""
    if out is None:
        out = []
    if isinstance(v, (list, dict)):
        out.append(v)
    if isinstance(v, (tuple, list)) and depth < 4:
        for x in v:
            containers_in(x, out, depth + 1)
    elif isinstance(v, dict) and depth < 4:
        for x in v.values():
            containers_in(x, out, depth + 1)
    return out
