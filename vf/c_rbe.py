"""R01, R02: regular bag expressions and component tables."""
import itertools
from .core import run_harness

SYM_CARDS = [(1, 1), (0, 1), (0, -1), (1, -1), (2, 2), (2, 3), (0, 2), (3, -1), (0, 0), (1, 3)]
REP_CARDS = [(0, 1), (1, -1), (0, -1), (2, 2), (1, 2), (2, 3), (2, -1), (0, 2), (3, 3), (0, 0), (0, 3), (1, 1), (1, 3)]


def sym(v, c):
    return {"k": "sym", "v": v, "min": c[0], "max": c[1]}


def gen_expr(rng, depth, syms, reps=True, single=False, pool=None):
    """random expression; with single each symbol occurs at most once (pool is consumed)"""
    if pool is None:
        pool = list(syms)
        rng.shuffle(pool)

    def leaf():
        if single:
            if not pool:
                return {"k": "empty"}
            return sym(pool.pop(), rng.choice(SYM_CARDS[:6] if rng.random() < .7 else SYM_CARDS))
        return sym(rng.choice(syms), rng.choice(SYM_CARDS[:6] if rng.random() < .7 else SYM_CARDS))

    def go(d):
        r = rng.random()
        if d == 0 or r < .15:
            return {"k": "empty"} if rng.random() < .05 else leaf()
        kinds = ["and"] * 4 + ["or"] * 3 + ["star", "plus", "opt"] + (["rep"] * 2 if reps else [])
        k = rng.choice(kinds)
        if k in ("and", "or"):
            n = rng.choice([2, 2, 2, 3])
            es = [go(d - 1) for _ in range(n)]
            return {"k": k, "es": es}
        if k == "rep":
            c = rng.choice(REP_CARDS)
            return {"k": "rep", "e": go(d - 1), "min": c[0], "max": c[1]}
        return {"k": k, "e": go(d - 1)}
    return go(depth)


def syms_of(e):
    if e["k"] == "sym":
        return {e["v"]}
    if "es" in e:
        return set().union(*[syms_of(x) for x in e["es"]]) if e["es"] else set()
    return syms_of(e["e"]) if "e" in e else set()


def small_exprs():
    """all expressions of depth <= 1 over two symbols and a few cardinalities, and depth 2 over fewer"""
    cards = [(1, 1), (0, 1), (0, -1), (2, 3)]
    l1 = [sym(v, c) for v in (1, 2) for c in cards] + [{"k": "empty"}]
    out = list(l1)
    for a, b in itertools.product(l1, l1):
        out.append({"k": "and", "es": [a, b]}); out.append({"k": "or", "es": [a, b]})
    un = [lambda e: {"k": "star", "e": e}, lambda e: {"k": "plus", "e": e}, lambda e: {"k": "opt", "e": e}] + \
         [lambda e, c=c: {"k": "rep", "e": e, "min": c[0], "max": c[1]} for c in ((2, 2), (0, 2), (2, -1), (0, 0), (0, 1), (1, 1), (0, -1), (1, -1), (1, 2))]
    base2 = [sym(1, (1, 1)), sym(1, (0, 1)), sym(1, (2, 3))] + \
            [{"k": k, "es": [sym(1, c), sym(1, d)]} for k in ("and", "or") for c in ((1, 1), (2, 2)) for d in ((1, 1), (0, 1))] + \
            [{"k": "or", "es": [{"k": "and", "es": [sym(1, (1, 1)), sym(2, (1, 1))]}, {"k": "and", "es": [sym(1, (1, 1)), sym(3, (1, 1))]}]}] + \
            [{"k": k, "es": [sym(1, c), sym(2, d)]} for k in ("and", "or") for c in ((1, 1), (0, 1), (0, -1), (2, 2)) for d in ((1, 1), (0, 1), (0, -1))]
    for u in un:
        out += [u(e) for e in base2]
        out += [{"k": "and", "es": [u(e), sym(2, (1, 1))]} for e in base2[3:]]
        out += [{"k": "or", "es": [u(e), sym(2, (1, 1))]} for e in base2[3:]]
    return out


def r01(c):
    rng = c.rng
    c.model("RbeModel", cfg=c.pick("RbeModel.cfg", "RbeModelDeep.cfg"))
    cmds = []
    bags2 = [[1] * i + [2] * j for i in range(4) for j in range(4)]
    for e in small_exprs():
        cases = [{"bag": b, "open": False} for b in (bags2 if not c.quick else rng.sample(bags2, 8))]
        cases += [{"bag": rng.choice(bags2) + [3], "open": o} for o in (True, False)]
        cmds.append({"op": "rbe", "expr": e, "cases": cases})
    for _ in range(c.pick(1200, 12000)):
        single = rng.random() < .6
        e = gen_expr(rng, rng.choice([1, 2, 2, 3]), [1, 2, 3], reps=rng.random() < .6, single=single)
        cases = []
        for _ in range(6):
            b = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5]))]
            rng.shuffle(b)
            op = rng.random() < .3
            if rng.random() < .25:
                b.insert(rng.randint(0, len(b)), 9)
            cases.append({"bag": b, "open": op})
            if len(b) > 1:
                b2 = list(b); rng.shuffle(b2)
                cases.append({"bag": b2, "open": op})
        cmds.append({"op": "rbe", "expr": e, "cases": cases})
    res = run_harness("h_core", cmds, timeout=30)
    events = []
    for cmd, r in zip(cmds, res):
        for k, case in enumerate(cmd["cases"]):
            obs = r["out"][k] if "out" in r else {"deriv": "lost", "interval": "lost", "plain": "lost"}
            events.append({"op": "rbe", "expr": cmd["expr"], "bag": case["bag"], "open": case["open"],
                           "obs": {k: str(v).lower() if not isinstance(v, bool) else v for k, v in obs.items()}})
    c.cov["accepting"] = sum(1 for e in events if e["obs"]["deriv"] is True)
    c.cov["rejecting"] = sum(1 for e in events if e["obs"]["deriv"] is False)
    c.validate("bags", "RbeTrace", events, replay=lambda i: events[i])


def gen_table(rng):
    nk = rng.choice([1, 1, 2])
    nc = rng.choice([1, 2, 2, 3, 3, 4])
    comps = []
    for _ in range(nc):
        acc = sorted(rng.sample([1, 2, 3], rng.choice([0, 1, 1, 2, 3])))
        comps.append({"key": rng.randint(1, nk), "accept": acc})
    e = gen_expr(rng, rng.choice([1, 2, 2]), list(range(1, nc + 1)), reps=rng.random() < .3, single=True)
    used = syms_of(e)
    missing = [i for i in range(1, nc + 1) if i not in used]
    if missing:
        e = {"k": "and", "es": [e] + [sym(i, rng.choice(SYM_CARDS[:6])) for i in missing]}
    return comps, e, nk


def r02(c):
    rng = c.rng
    cmds = []
    for _ in range(c.pick(1500, 12000)):
        comps, e, nk = gen_table(rng)
        cases = []
        for _ in range(5):
            n = rng.choice([0, 1, 1, 2, 3, 3, 4])
            ps = [{"key": rng.randint(1, nk) if rng.random() < .97 else 9, "val": rng.choice([1, 2, 3])} for _ in range(n)]
            cases.append(ps)
            if n > 1:
                q = list(ps); rng.shuffle(q); cases.append(q)
        cmds.append({"op": "table", "comps": comps, "expr": e, "cases": cases})
    res = run_harness("h_core", cmds, timeout=30)
    events = []
    for cmd, r in zip(cmds, res):
        for k, ps in enumerate(cmd["cases"]):
            obs = r["out"][k] if "out" in r else {"panic": "lost"}
            if "panic" in obs:
                obs = {"exists": "panic", "feasible": "panic", "assignments": []}
            obs.pop("error", None)
            events.append({"op": "table", "comps": cmd["comps"], "expr": cmd["expr"], "pairs": ps, "obs": obs})
    c.cov["matching"] = sum(1 for e in events if e["obs"]["exists"] is True)
    c.validate("tables", "RbeTrace", events, replay=lambda i: events[i])
