"""Shrinks a failing plan while a violation of the same class persists."""
import copy, time
from . import api


def classes(res):
    return {c for c, _ in res["viol"]}


def minimise(check, plan, cls, budget_s, save):
    t_end = time.monotonic() + budget_s
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        try:
            return cls in classes(check.execute(copy.deepcopy(p)))
        except Exception:
            return False

    def attempt(p):
        nonlocal plan
        if time.monotonic() > t_end:
            return False
        if fails(p):
            plan = p
            save(plan)
            return True
        return False

    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for cand in candidates(plan):
            if time.monotonic() > t_end:
                break
            if attempt(cand):
                progress = True
                break
    return plan, tried


def drop_task(plan, t):
    p = copy.deepcopy(plan)
    del p["tasks"][t]
    ren = lambda x: x if x < t else x - 1
    p["sw"] = [[ren(s[0]), s[1], s[2], ren(s[3]) if s[3] != t else 0] for s in p.get("sw", []) if s[0] != t]
    p["faults"] = [dict(f, t=ren(f["t"])) for f in p.get("faults", []) if f["t"] != t]
    p["start"] = 0
    if len(p["tasks"]) == 1:
        p["sw"] = []
    return p


def drop_ops(plan, t, lo, hi):
    p = copy.deepcopy(plan)
    n = hi - lo
    del p["tasks"][t][lo:hi]

    def ren(o):
        return o if o < lo else (None if o < hi else o - n)
    p["sw"] = [[s[0], ren(s[1]) if s[0] == t else s[1], s[2], s[3]] for s in p.get("sw", []) if s[0] != t or ren(s[1]) is not None]
    p["faults"] = [dict(f, o=ren(f["o"]) if f["t"] == t else f["o"]) for f in p.get("faults", []) if f["t"] != t or ren(f["o"]) is not None]
    return p


def chunks(n):
    size = n
    while size >= 1:
        for lo in range(0, n, size):
            yield lo, min(n, lo + size)
        if size == 1:
            break
        size = max(1, size // 2)


def candidates(plan):
    nt = len(plan.get("tasks", []))
    if nt > 1:
        for t in range(nt):
            yield drop_task(plan, t)
    for t in range(nt):
        n = len(plan["tasks"][t])
        for lo, hi in chunks(n):
            if hi - lo == n and nt == 1:
                continue
            yield drop_ops(plan, t, lo, hi)
    for key in ("faults", "sw"):
        l = plan.get(key) or []
        for lo, hi in chunks(len(l)):
            p = copy.deepcopy(plan)
            del p[key][lo:hi]
            yield p
    if "calls" in plan and plan["calls"]:
        for lo, hi in chunks(len(plan["calls"])):
            p = copy.deepcopy(plan)
            del p["calls"][lo:hi]
            yield p
    if plan.get("rc"):
        p = copy.deepcopy(plan)
        p["rc"] = {}
        yield p
    if plan.get("fine") and not plan.get("faults") and not plan.get("sw"):
        p = copy.deepcopy(plan)
        p["fine"] = False
        yield p
    # simpler arguments
    if sum(len(x) for x in plan.get("tasks", [])) <= 8 and not plan.get("proc"):
        for t in range(nt):
            for o, op in enumerate(plan["tasks"][t]):
                if "f" not in op:
                    continue
                for k in list(op["a"]):
                    if k in ("sig", "fs"):
                        continue
                    p = copy.deepcopy(plan)
                    del p["tasks"][t][o]["a"][k]
                    yield p
