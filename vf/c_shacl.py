"""H01..H07: SHACL validation."""
import random
from . import core
from .shaclgen import *

RES = [iri(E + "n%d" % i) for i in range(1, 6)] + [bn("x1"), bn("x2")]
CLS = [iri(E + "C%d" % i) for i in range(1, 6)]
CMP = ["MinExclusive", "MinInclusive", "MaxExclusive", "MaxInclusive"]


def run_cases(c, part, cases, modes=("native",), op="report", variants=1, timeout=60, ways=None, sig=None):
    """every case: variants x modes runs; ways: the shapes are written and read back in one of these sequences of formats"""
    cmds, leads = [], []
    for cs in cases:
        for v in range(variants):
            rng = c.rng if v else None
            for m in modes:
                st = [{"op": "load_data", "data": cs.data_ttl(rng), "format": "turtle"}, {"op": "load_shacl", "shapes": cs.shapes_ttl(rng), "format": "turtle"}]
                st += [{"op": "shacl_roundtrip", "format": f} for f in (c.rng.choice(ways) if ways else [])]
                lead = len(st)
                val = {"op": "validate_shacl", "mode": m}
                leads.append(lead)
                cmds.append({"op": "script", "steps": st + [val] * (2 if variants > 1 and v == 0 else 1)})
    ans = core.run_harness("h_lib", cmds, timeout=timeout)
    per = variants * len(modes)
    evs = []
    for i, cs in enumerate(cases):
        e = cs.enc()
        runs = []
        for a, lead in zip(ans[i * per:(i + 1) * per], leads[i * per:(i + 1) * per]):
            if "out" not in a:
                runs.append({"fail": str(a)[:200], "conforms": False, "res": []})
                continue
            bad = [s for s in a["out"][:lead] if "ok" not in s]
            for s in a["out"][lead:]:
                runs.append({"fail": str(bad)[:300], "conforms": False, "res": []} if bad else cs.read(s))
        e.update(op=op, runs=runs)
        evs.append(e)
    c.validate(part, "ShaclTrace", evs, n_impl=len(cmds), replay=lambda i: [x for x in cmds[i * per:(i + 1) * per]], sig=sig and (lambda i, w: sig(evs[i])))


# ------------------------------------------------------------------ generators
def clean(t):
    t = okdate(t)
    if t[0] == "lit" and t[2] in ("double", "float") and sum(ch.isdigit() for ch in t[1]) > 15:
        return lit("1e3", t[2])     # compared with a precision that the standards leave open
    return t


def anyval(rng):
    return clean(value(rng))


def value_constraint(rng, prop=True):
    """one constraint of the value/cardinality families, and values near it"""
    k = rng.choice(["Class", "Datatype", "Datatype", "NodeKind", "MinCount", "MaxCount", *CMP, *CMP, "MinLength", "MaxLength", "Pattern", "LanguageIn", "UniqueLang", "In", "HasValue"])
    if not prop and k in ("MinCount", "MaxCount", "UniqueLang"):
        k = "NodeKind"
    near_vals = lambda: [anyval(rng) for _ in range(3)]
    if k == "Class":
        return {"k": k, "t": rng.choice(CLS)}, lambda: [rng.choice(RES + CLS[:2])] + near_vals()[:1]
    if k == "Datatype":
        dt = rng.choice(DTS + ["langString"] if rng.random() < .6 else ["integer", "decimal", "string", "double", "boolean", "dateTime"])
        if dt == "langString":
            return {"k": k, "dt": dt}, lambda: [lit("a", "", "en"), lit("a")] + near_vals()[:1]
        return {"k": k, "dt": dt}, lambda: near(rng, nc("", dt), 3)
    if k == "NodeKind":
        return {"k": k, "nk": rng.choice(list(KINDS))}, near_vals
    if k in ("MinCount", "MaxCount"):
        return {"k": k, "n": rng.choice([0, 1, 1, 2, 2, 3])}, near_vals
    if k in CMP:
        while True:
            t = anyval(rng)
            if t[0] == "lit" and not t[3] and t[2] not in ("http://e/dt", "anyURI", "date"):
                break
        if rng.random() < .5:
            t = lit(rng.choice(FACNUM[:-1]), rng.choice(["decimal", "double", "decimal"])) if rng.random() < .6 else lit(str(rng.choice([0, 1, 5, 10, -3])), "integer")
        if t[2] in NUMS:
            return {"k": k, "t": t}, lambda: near(rng, nc("", "", [{"num": t[1] if re.fullmatch(r"[-+]?\d+(\.\d+)?", t[1]) else "5"}]), 3)
        return {"k": k, "t": t}, lambda: [clean(mutate(rng, t)), lit(rng.choice(DTIMES[:4]), "dateTime"), anyval(rng)]
    if k in ("MinLength", "MaxLength"):
        n = rng.choice([0, 1, 2, 3, 4, 12, 13])
        return {"k": k, "n": n}, lambda: [rng.choice([lit(gstr(rng)), lit(gstr(rng), "", "en"), iri(rng.choice(IRIS)), lit("12", "integer"), lit("é" * rng.choice([n, n + 1, max(0, n - 1)]))]) for _ in range(3)]
    if k == "Pattern":
        pat = gen_pat(rng, "abA1é", .25, "smxq")
        return {"k": k, "pat": pat}, lambda: [lit(pat_vals(rng, pat)) if set(pat["flags"]) & set("smq") and rng.random() < .7 else rng.choice([lit(gstr(rng)), lit("ab1"), lit("a" + gstr(rng), "", "en"), iri(rng.choice(IRIS)), lit("11", "integer")]) for _ in range(3)]
    if k == "LanguageIn":
        return {"k": k, "l": rng.sample(LANGS, rng.choice([1, 1, 2, 3]))}, lambda: [lit(gstr(rng, 2), "", rng.choice(LANGS + ["e", "f"])) for _ in range(2)] + near_vals()[:1]
    if k == "UniqueLang":
        return {"k": k, "on": rng.random() < .85}, lambda: [lit(gstr(rng, 2), "", rng.choice(["en", "en", "en-gb", "fr"])) for _ in range(2)] + [lit(rng.choice("ab"))]
    ts = [t for t in [anyval(rng) for _ in range(rng.choice([1, 2, 3]))] if t[0] != "bnode"] or [lit("a")]
    if rng.random() < .3:
        ts.append(iri(E + "n1"))
    def vals():
        return [t if rng.random() < .5 else clean(mutate(rng, t)) for t in ts][:3]
    if k == "In":
        return {"k": k, "ts": list(dict.fromkeys(ts))}, vals
    return {"k": k, "t": ts[0]}, vals


def add_types(rng, cs, n=4, deep=True):
    for _ in range(n):
        cs.arc(rng.choice(RES), TYPE, rng.choice(CLS))
    for _ in range(rng.choice([0, 1, 2, 3, 5]) if deep else 1):
        a, b = rng.sample(range(5), 2)
        if a > b and rng.random() < .75:
            a, b = b, a
        cs.arc(CLS[a], SUBC, CLS[b])


def h01_case(rng):
    cs = Case()
    prop = rng.random() < .75
    cons, makers = [], []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k, mk = value_constraint(rng, prop)
        if k["k"] in [x["k"] for x in cons] and k["k"] not in ("Class", "HasValue"):
            continue
        cons.append(k), makers.append(mk)
    focus = RES[:3] + [bn("x1")]
    if any(k["k"] == "Class" for k in cons):
        add_types(rng, cs)
    for f in focus:
        for _ in range(rng.choice([0, 1, 1, 2])):
            for t in map(clean, rng.choice(makers)()):
                if not (t[0] == "bnode" and t[1] not in ("x1", "x2")):
                    cs.arc(f, P, t)
    if not cs.arcs:
        cs.arc(focus[0], P, lit("a"))
    if prop:
        i = cs.shape(node=False, path=pr(P), cs=cons, bnode=rng.random() < .3, typed=rng.random() < .7, sev=rng.choice(SEVS))
        tg = [{"k": "node", "t": t} for t in RES[:3]] + [{"k": "subj", "v": P}]
        if rng.random() < .6:
            cs.shape(targets=tg, ps=[i])
        else:
            cs.shapes[i - 1]["targets"] = tg
    else:
        cs.shape(targets=[{"k": "obj", "v": P}], cs=cons, sev=rng.choice(SEVS))
    return cs


def h01(c):
    cases = [h01_case(c.rng) for _ in range(c.pick(8000, 30000))] + [class_case(c.rng) for _ in range(c.pick(1000, 5000))]
    run_cases(c, "value constraints", cases)


def simple_shape(rng, cs, prop_ok=True):
    """a leaf shape; returns its index"""
    r = rng.random()
    if prop_ok and r < .55:
        k = rng.choice([{"k": "MinCount", "n": 1}, {"k": "MaxCount", "n": 1}, {"k": "MinCount", "n": 2}, {"k": "NodeKind", "nk": rng.choice(list(KINDS))},
                        {"k": "Datatype", "dt": "integer"}, {"k": "HasValue", "t": rng.choice(RES[:3])}, {"k": "Class", "t": CLS[0]}])
        return cs.shape(node=False, path=pr(rng.choice([P, Q])) if rng.random() < .85 else {"k": "inv", "e": pr(rng.choice([P, Q]))}, cs=[k],
                        bnode=rng.random() < .4, typed=rng.random() < .6, sev=rng.choice(SEVS), off=rng.random() < .04)
    k = rng.choice([{"k": "NodeKind", "nk": rng.choice(list(KINDS))}, {"k": "Datatype", "dt": rng.choice(["integer", "string"])}, {"k": "Class", "t": rng.choice(CLS[:2])},
                    {"k": "In", "ts": rng.sample(RES[:4], 2) + [lit("1", "integer")]}, {"k": "HasValue", "t": rng.choice(RES[:2])}, {"k": "MinLength", "n": 3},
                    {"k": "Closed", "ignored": rng.sample([TYPE, P, Q, R_], rng.choice([0, 1, 2, 3]))}])
    return cs.shape(cs=[k], bnode=rng.random() < .4, typed=rng.random() < .6, sev=rng.choice(SEVS), off=rng.random() < .04)


def nested(rng, cs, d):
    if d == 0:
        return simple_shape(rng, cs)
    k = rng.choice(["And", "Or", "Xone", "Not", "Node", "Prop", "Prop", "Qual", "Closed"])
    sub = lambda: nested(rng, cs, d - 1) if rng.random() < .7 else (rng.randrange(1, len(cs.shapes) + 1) if cs.shapes and rng.random() < .4 else simple_shape(rng, cs))
    kw = dict(bnode=rng.random() < .3, typed=rng.random() < .6, sev=rng.choice(SEVS), off=rng.random() < .03)
    pp = rng.random() < .5
    if pp or k in ("Qual",):
        kw.update(node=False, path=pr(rng.choice([P, Q, P, Q, R_])))
    if k in ("And", "Or", "Xone"):
        c = [{"k": k, "vs": [sub() for _ in range(rng.choice([1, 2, 2, 3]))]}]
        if rng.random() < .15:
            c.append({"k": rng.choice(["And", "Or", "Xone"]), "vs": [sub()]})
        return cs.shape(cs=c, **kw)
    if k in ("Not", "Node"):
        c = [{"k": k, "v": sub()}]
        if rng.random() < .25:
            c.append({"k": rng.choice(["Not", "Node"]), "v": sub()})
        return cs.shape(cs=c, **kw)
    if k == "Prop":
        ps = []
        for _ in range(rng.choice([1, 1, 2])):
            x = sub()
            if cs.shapes[x - 1]["node"]:
                x = cs.shape(node=False, path=pr(rng.choice([P, Q])), cs=[{"k": "Node", "v": x}], bnode=rng.random() < .4)
            if x not in ps:
                ps.append(x)
        return cs.shape(ps=ps, **kw)
    if k == "Closed":
        ps = [cs.shape(node=False, path=pr(p), cs=[{"k": "MaxCount", "n": 2}]) for p in rng.sample([P, Q, R_], rng.choice([0, 1, 2]))]
        kw.update(node=True, path=None) if rng.random() < .8 else None
        return cs.shape(ps=ps, cs=[{"k": "Closed", "ignored": rng.sample([TYPE, P, Q], rng.choice([0, 1, 2]))}], **kw)
    mn, mx = rng.choice([(1, -1), (-1, 1), (1, 1), (2, -1), (0, 0), (-1, 0), (1, 2)])
    if rng.random() < .5:
        return cs.shape(cs=[{"k": "Qualified", "v": sub(), "min": mn, "max": mx, "disj": rng.random() < .3}], **kw)
    qs = []
    path = kw["path"]
    for _ in range(rng.choice([2, 2, 3])):
        mn, mx = rng.choice([(1, -1), (-1, 1), (1, 1), (0, 0), (2, -1)])
        qs.append(cs.shape(node=False, path=path if rng.random() < .8 else pr(rng.choice([P, Q])), bnode=rng.random() < .5,
                           cs=[{"k": "Qualified", "v": sub(), "min": mn, "max": mx, "disj": rng.random() < .75}]))
    kw.update(node=True, path=None)
    return cs.shape(ps=qs, **kw)


def small_graph(rng, cs, n=None, lits=True):
    pool = RES + ([lit("1", "integer"), lit("a"), lit("abcd"), lit("x", "", "en")] if lits else [])
    for _ in range(n or rng.choice([4, 6, 8, 11])):
        cs.arc(rng.choice(RES), rng.choice([P, P, Q, Q, R_]), rng.choice(pool if rng.random() < .5 else RES))
    for _ in range(rng.choice([0, 2, 4])):
        cs.arc(rng.choice(RES), TYPE, rng.choice(CLS[:2]))


def targets(rng, k=None):
    out = []
    for _ in range(k or rng.choice([1, 1, 2])):
        r = rng.random()
        out.append({"k": "node", "t": rng.choice(RES[:5])} if r < .5 else {"k": "subj", "v": rng.choice([P, Q])} if r < .7 else
                   {"k": "obj", "v": rng.choice([P, Q])} if r < .85 else {"k": "class", "t": rng.choice(CLS[:2])})
    return [t for i, t in enumerate(out) if t not in out[:i]]


def recursive(cs):
    """does a shape depend on itself, through references or sibling shapes? (SHACL leaves it undefined)"""
    S = cs.shapes
    qv = lambda s: {c["v"] for c in s["cs"] if c["k"] == "Qualified"}
    deps = []
    for i, s in enumerate(S, 1):
        d = set(s["ps"])
        for c in s["cs"]:
            d |= set(c.get("vs", [])) if c["k"] in ("And", "Or", "Xone") else {c["v"]} if c["k"] in ("Not", "Node", "Qualified") else set()
        if any(c["k"] == "Qualified" and c["disj"] for c in s["cs"]):
            d |= {v for p in S if i in p["ps"] for j in p["ps"] for v in qv(S[j - 1])}
        deps.append(d)
    state = {}

    def visit(i):
        if state.get(i) == 2:
            return False
        if state.get(i) == 1:
            return True
        state[i] = 1
        r = any(visit(j) for j in deps[i - 1])
        state[i] = 2
        return r
    return any(visit(i) for i in range(1, len(S) + 1))


def h02_case(rng, depth=None):
    cs = h02_case0(rng, depth)
    return h02_case(rng, depth) if recursive(cs) else cs


def h02_case0(rng, depth=None):
    cs = Case()
    small_graph(rng, cs)
    i = nested(rng, cs, depth or rng.choice([1, 2, 2, 3, 3, 4]))
    cs.shapes[i - 1]["targets"] = targets(rng, 2)
    if rng.random() < .3:
        j = nested(rng, cs, 1)
        cs.shapes[j - 1]["targets"] = targets(rng)
    cs.shapes[i - 1]["off"] = False
    return cs


def h02(c):
    cases = [h02_case(c.rng) for _ in range(c.pick(4000, 30000))]
    run_cases(c, "logical and shape-based", cases)


PAIRV = ["1", "2", "3", "01", "2.0", "10"]


def pair_value(rng):
    r = rng.random()
    if r < .35:
        return lit(rng.choice(["1", "2", "3", "10", "01"]), "integer")
    if r < .45:
        return lit(rng.choice(["1.0", "2.5", "10.0"]), "decimal")
    if r < .52:
        return lit(rng.choice(["1e0", "2.5", "NaN", "INF"]), "double")
    if r < .65:
        return lit(rng.choice(["a", "b", "ab", "1"]))
    if r < .72:
        return lit(rng.choice(["a", "b"]), "", rng.choice(["en", "fr"]))
    if r < .82:
        return lit(rng.choice(DTIMES[:4] + ["2020-01-01T00:00:01Z"]), "dateTime")
    if r < .86:
        return lit(rng.choice(DATES[:3]), "date")   # SPARQL does not order dates; only those without time zone
    if r < .9:
        return lit(rng.choice(["true", "false", "1"]), "boolean")
    if r < .95:
        return rng.choice([iri(E + "n1"), iri(E + "n2"), bn("x1"), bn("x2")])
    t = anyval(rng)
    return lit("5") if t[2] in ("http://e/dt", "anyURI") else t     # SPARQL does not order them; comparing one with itself is left open


def h03_case(rng):
    cs = Case()
    pool = [pair_value(rng) for _ in range(rng.choice([2, 3, 4]))]
    if rng.random() < .5:
        pool = [t for t in pool if t[2] in NUMS] + [lit("2", "integer"), lit("3", "integer")]
    for f in RES[:3] + [bn("x1")]:
        for p in (P, Q, R_):
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                t = rng.choice(pool)
                if t[0] == "bnode" and t[1] not in ("x1", "x2"):
                    t = bn("x1")
                cs.arc(f, p, t)
    if not cs.arcs:
        cs.arc(RES[0], P, lit("1", "integer"))
    if rng.random() < .8:
        path = pr(P) if rng.random() < .7 else {"k": "alt", "es": [pr(P), pr(R_)]}
        ks = rng.sample(["Equals", "Disjoint", "LessThan", "LessThanOrEquals", "LessThan", "LessThanOrEquals"], rng.choice([1, 1, 2]))
        i = cs.shape(node=False, path=path, cs=[{"k": k, "p": rng.choice([Q, Q, Q, R_, P])} for k in dict.fromkeys(ks)], sev=rng.choice(SEVS))
        tg = [{"k": "node", "t": t} for t in RES[:3]] + [{"k": "subj", "v": Q}] + ([{"k": "obj", "v": P}] if rng.random() < .3 else [])
        if rng.random() < .5:
            cs.shape(targets=tg, ps=[i])
        else:
            cs.shapes[i - 1]["targets"] = tg
    else:
        for f in RES[:3] + [bn("x1")]:
            if rng.random() < .6:
                cs.arc(f, Q, f)
        cs.shape(targets=[{"k": "node", "t": t} for t in RES[:3]] + [{"k": "subj", "v": P}],
                 cs=[{"k": rng.choice(["Equals", "Disjoint"]), "p": Q}])
    return cs


def h03(c):
    run_cases(c, "property pairs", [h03_case(c.rng) for _ in range(c.pick(4000, 30000))])


NEVER = iri(E + "none")


def h04_case(rng):
    cs = Case()
    for _ in range(rng.choice([3, 5, 8])):
        cs.arc(rng.choice(RES), rng.choice([P, Q]), rng.choice(RES + [lit("1", "integer"), lit("a"), lit("a", "", "en")]))
    add_types(rng, cs, rng.choice([2, 4, 6]))
    if rng.random() < .2:
        cs.arc(CLS[1], TYPE, CLS[0])       # a class that is an instance too
    for _ in range(rng.choice([1, 1, 2, 3])):
        ts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            ts.append({"k": "node", "t": rng.choice(RES[:5] + [lit("1", "integer"), lit("01", "integer"), lit("a"), lit("a", "", "en"), iri(E + "absent"), CLS[0]])} if r < .25 else
                      {"k": "class", "t": rng.choice(CLS)} if r < .65 else {"k": "subj", "v": rng.choice([P, Q, R_])} if r < .8 else {"k": "obj", "v": rng.choice([P, Q, R_])})
        ts = [t for i, t in enumerate(ts) if t not in ts[:i]]
        kw = dict(targets=ts, typed=rng.random() < .6, off=rng.random() < .12, sev=rng.choice(SEVS))
        if rng.random() < .25:
            free = [k for k in CLS if k not in [s["id"] for s in cs.shapes]]
            kw.update(cls=True, typed=True, id=rng.choice(free), targets=ts if rng.random() < .4 else [])
        if rng.random() < .7:
            cs.shape(cs=[{"k": "In", "ts": [NEVER]}], **kw)
        elif rng.random() < .5:
            cs.shape(node=False, path=pr(rng.choice([P, Q])), cs=[{"k": "MinCount", "n": 2}], **kw)
        else:
            i = cs.shape(node=False, path=pr(P), cs=[{"k": "MaxCount", "n": 0}], off=rng.random() < .2)
            cs.shape(ps=[i], **kw)
    return cs


def h04(c):
    run_cases(c, "targets", [h04_case(c.rng) for _ in range(c.pick(8000, 30000))] + [class_case(c.rng) for _ in range(c.pick(1000, 5000))])


def gen_path(rng, d):
    if d == 0 or rng.random() < .2:
        return pr(rng.choice([P, P, Q, Q, R_]))
    k = rng.choice(["inv", "seq", "seq", "alt", "alt", "star", "plus", "opt"])
    if k in ("seq", "alt"):
        return {"k": k, "es": [gen_path(rng, d - 1) for _ in range(rng.choice([2, 2, 3]))]}
    return {"k": k, "e": gen_path(rng, d - 1)}


def h05_case(rng):
    cs = Case()
    n = rng.choice([3, 4, 5])
    pool = RES[:n] + [bn("x1")]
    shape = rng.random()
    if shape < .3:       # a cycle
        for i in range(n):
            cs.arc(pool[i], P, pool[(i + 1) % n])
    elif shape < .5:     # a chain with a branch
        for i in range(n):
            cs.arc(pool[i], P, pool[i + 1])
    for _ in range(rng.choice([2, 4, 6, 9])):
        cs.arc(rng.choice(pool), rng.choice([P, Q, R_]), rng.choice(pool + [lit("1", "integer"), lit("a")]))
    for _ in range(rng.choice([1, 2])):
        path = gen_path(rng, rng.choice([1, 1, 2, 2, 3]))
        cons = [{"k": "In", "ts": [NEVER]}] if rng.random() < .7 else [{"k": "HasValue", "t": rng.choice(RES[:3])}]
        cons += [{"k": "MinCount", "n": rng.choice([1, 2, 3, 4])}] * (rng.random() < .5) + [{"k": "MaxCount", "n": rng.choice([0, 1, 2, 3])}] * (rng.random() < .5)
        i = cs.shape(node=False, path=path, cs=cons, bnode=rng.random() < .3)
        tg = [{"k": "subj", "v": P}, {"k": "obj", "v": rng.choice([P, Q])}, {"k": "node", "t": rng.choice(RES[:5] + [lit("1", "integer"), iri(E + "absent")])}]
        if rng.random() < .5:
            cs.shapes[i - 1]["targets"] = rng.sample(tg, 2)
        else:
            cs.shape(targets=rng.sample(tg, 2), ps=[i])
    return cs


def h05(c):
    run_cases(c, "paths", [h05_case(c.rng) for _ in range(c.pick(4000, 30000))], timeout=20)


ALL = [h01_case, h02_case, h03_case, h04_case, h05_case]


def class_case(rng):
    """class and target class over subclass chains, cycles and forks"""
    cs = Case()
    order = rng.sample(CLS, 5)
    for a, b in zip(order, order[1:]):
        if rng.random() < .8:
            cs.arc(a, SUBC, b)
    if rng.random() < .4:
        a, b = rng.sample(CLS, 2)
        cs.arc(a, SUBC, b)
    for n in RES[:4]:
        for _ in range(rng.choice([0, 1, 1, 2])):
            cs.arc(n, TYPE, rng.choice(order[:3]))
        cs.arc(n, P, rng.choice(RES + CLS[:2] + [lit("1", "integer")]))
    k = [{"k": "Class", "t": t} for t in rng.sample(CLS, rng.choice([1, 1, 2]))]
    tg = [{"k": "class", "t": rng.choice(CLS)}] if rng.random() < .4 else [{"k": "node", "t": t} for t in RES[:4]]
    if rng.random() < .5:
        cs.shape(targets=tg, cs=k)
    else:
        cs.shape(node=False, path=pr(P), cs=k, targets=tg)
    return cs


def h06(c):
    cases = [c.rng.choice([h01_case, h02_case, h03_case, h03_case, h04_case, h05_case, h01_case, class_case])(c.rng) for _ in range(c.pick(4000, 30000))]
    run_cases(c, "engines agree", cases, modes=("native", "sparql"), op="agree")


def h07_case(rng):
    cs = h07_case0(rng)
    return h07_case(rng) if recursive(cs) else cs


def h07_case0(rng):
    """many shapes with targets that share sub-shapes"""
    cs = Case()
    small_graph(rng, cs)
    for _ in range(rng.choice([3, 5, 8])):
        i = nested(rng, cs, rng.choice([1, 2, 2, 3]))
        cs.shapes[i - 1]["targets"] = targets(rng)
        cs.shapes[i - 1]["off"] = False
    for s in cs.shapes:
        if not s["targets"] and not s["bnode"] and rng.random() < .4:
            s["targets"] = targets(rng)
        if rng.random() < .1:
            s["sev"] = E + "Sev"
    return cs


def h07(c):
    cases = [h07_case(c.rng) for _ in range(c.pick(3000, 10000))]
    run_cases(c, "many shapes, orders, repetitions", cases, variants=3)


WAYS = [[f] for f in ("turtle", "ntriples", "rdfxml", "trig", "n3", "nquads", "jsonld")] + [["turtle", "turtle"], ["rdfxml", "turtle"], ["jsonld", "ntriples"]]


def h08(c):
    gens = [h01_case, h02_case, h02_case, h03_case, h04_case, h05_case, h07_case, class_case]
    run_cases(c, "written and read back", [c.rng.choice(gens)(c.rng) for _ in range(c.pick(4000, 30000))], ways=WAYS)


# ------------------------------------------------------------------ SPARQL-based constraints
from .sparqlgen import *


def sparql_con(rng, cs, consts, strs, path=None):
    q = QGen(rng, consts, strs, path).query()
    # the prefixes of the query come from one or two ontologies, or from one that these import
    pfx = rng.sample(PFX, rng.choice([0, 1, 2, 3]))
    onts = []
    if pfx:
        o = [E + "ont%d_%d" % (len(cs.extra), i) for i in range(3)]
        onts = rng.choice([[o[0]], [o[0]], [o[0], o[1]]])
        where = o[:len(onts)]
        if rng.random() < .4:
            cs.extra.append(f"<{onts[-1]}> <http://www.w3.org/2002/07/owl#imports> <{o[2]}> .")
            where = where + [o[2]]
            if rng.random() < .3:
                cs.extra.append(f"<{o[2]}> <http://www.w3.org/2002/07/owl#imports> <{onts[0]}> .")
        for p, ns in pfx:
            cs.extra.append(f"<{rng.choice(where)}> sh:declare [ sh:prefix {esc(p)} ; sh:namespace {esc(ns)}" + (f"^^<{XSD}anyURI>" if rng.random() < .6 else "") + " ] .")
    return {"k": "Sparql", "off": rng.random() < .06, "on": rng.random() < .1, "onts": onts, "text": Printer(rng, pfx).query(q), "enc": lambda c: enc_q(c, q)}


def h09_case(rng, blanks=False):
    cs = Case()
    strs = rng.random() < .3
    lits = [lit("a"), lit("b"), lit("a", "", "en"), lit("b", "", "fr"), lit("1", "integer")] if strs else [lit(str(i), "integer") for i in (1, 2, 5)]
    res = RES[:4] + ([bn("x1"), bn("x2")] if blanks else [])
    for _ in range(rng.choice([4, 6, 8, 10])):
        cs.arc(rng.choice(res), rng.choice(PREDS), rng.choice(res + lits))
    if not blanks and rng.random() < .3:
        for _ in range(2):
            cs.arc(rng.choice(RES[:4] + [bn("x1")]), S_, bn("x1"))
            cs.arc(bn("x1"), rng.choice(PREDS), rng.choice(RES[:3] + lits))
    # (a path of length zero relates a term that is not in the graph to itself: only terms of the graph are focus nodes and constants)
    inside = [t for t in res if t in cs.idx]
    ins = [t for t in lits if t in cs.idx]
    consts = [t for t in inside if t[0] == "iri"] + ins
    if not any(t[0] == "iri" for t in consts):
        return h09_case(rng, blanks)
    free = not any(t[0] == "bnode" for t in cs.nodes) or blanks
    tg = [{"k": "node", "t": t} for t in rng.sample([t for t in inside if t[0] == 'iri'], min(3, sum(t[0] == 'iri' for t in inside)))] + ([{"k": "node", "t": rng.choice(ins)}] if ins and rng.random() < .2 else [])
    if free and rng.random() < .3:
        tg.append({"k": rng.choice(["subj", "obj"]), "v": rng.choice(PREDS)})
    if blanks:
        tg += [{"k": "subj", "v": p} for p in PREDS]
    con = lambda path=None: sparql_con(rng, cs, consts, strs, path)
    path = lambda: QGen(rng, consts).path_(2) if rng.random() < .5 else pr(rng.choice(PREDS))
    x = rng.random() * (.8 if blanks else 1)
    sev = rng.choice(SEVS)
    if x < .5:                                  # on a node shape
        cs.shape(targets=tg, cs=[con() for _ in range(rng.choice([1, 1, 2]))] + ([{"k": "NodeKind", "nk": "IRI"}] if rng.random() < .2 else []), sev=sev)
    elif x < .8:                                # on a property shape, by itself or of a node shape
        p = path()
        i = cs.shape(node=False, path=p, cs=[con(p)], bnode=rng.random() < .3, sev=sev)
        if rng.random() < .5:
            cs.shape(targets=tg, ps=[i])
        else:
            cs.shapes[i - 1]["targets"] = tg
    else:                                       # in a shape that others refer to
        i = cs.shape(cs=[con()], sev=sev)
        k = rng.choice(["Not", "Node", "And", "Or", "Xone"])
        ref = {"k": k, "v": i} if k in ("Not", "Node") else {"k": k, "vs": [i] + ([cs.shape(cs=[con()])] if rng.random() < .5 else [])}
        if free and not blanks and rng.random() < .5:
            cs.shape(node=False, path=path(), targets=tg, cs=[ref])
        else:
            cs.shape(targets=tg, cs=[ref])
    return cs


def h09(c):
    n = c.pick(4000, 40000)
    both = ("native", "sparql")
    run_cases(c, "queries", [h09_case(c.rng) for _ in range(n)], modes=both)
    run_cases(c, "written and read back", [h09_case(c.rng) for _ in range(n // 4)], ways=WAYS)
    # a blank focus node makes the whole validation fail with an error (see known_findings.jsonl)
    run_cases(c, "blank focus nodes", [h09_case(c.rng, blanks=True) for _ in range(n // 10)], modes=both,
              sig=lambda ev: "blank-focus" if all("expected UNDEF" in r["fail"] for r in ev["runs"]) else None)
