"""X01..X08: ShEx."""
from .core import run_harness
from .shexgen import *

CLS = {"conformant": True, "nonconformant": False, "non-conformant": False}


def node_key(t):
    return t[1] if t[0] == "iri" else ttl(t)


def smap(pairs, nodes):
    return ",\n".join(f"{ttl(nodes[n-1])}@{'START' if i == 0 else label(i)}" for n, i in pairs)


def steps_for(sch, g, pairs, rng=None, start=None):
    return [{"op": "load_data", "data": g.turtle(rng), "format": "turtle"},
            {"op": "load_shex", "schema": shexc(sch, rng, start)},
            {"op": "load_shapemap", "shapemap": smap(pairs, g.nodes)},
            {"op": "validate_shex"}]


def failure(ans, upto=None):
    """how a script failed to produce verdicts, '' if it did not"""
    for k in ("hang", "crash"):
        if k in ans:
            return k
    o = ans["out"]
    for i, s in enumerate(o[:upto]):
        if "panic" in s:
            return f"panic at step {i+1}: {s['panic']}"
        if "err" in s:
            return f"error at step {i+1}: {s['err']}"
    return ""


def verdicts(rows, nodes, nlabels):
    """[[node, label, bool]] from the reported rows"""
    keys = {node_key(t): i + 1 for i, t in enumerate(nodes)}
    labs = {E + "S%d" % i: i for i in range(1, nlabels + 1)}
    labs["START"] = 0
    out, bad = [], ""
    for n, l, st in rows:
        n, l = n.strip("<>"), l.strip("<>")
        if n not in keys and '"' not in n:
            n = n.replace("'", '"')
        if n not in keys or l not in labs or st not in CLS:
            bad = f"unexpected row {n} {l} {st}"
            continue
        out.append([keys[n], labs[l], CLS[st]])
    return out, bad


def was_refused(ans):
    return any("negative cycles" in s.get("err", "") for s in ans.get("out", []))


def typing_event(sch, g, pairs, ans, std=False, step=None):
    f = failure(ans, step)
    obs = []
    refused = was_refused(ans)
    if not f:
        obs, f = verdicts(ans["out"][(step or 0) - 1]["ok"], g.nodes, len(sch))
    return {"op": "typing", "sch": enc_schema(sch), "g": g.enc(), "asked": [list(p) for p in pairs], "obs": obs, "fail": f, "std": std, "refused": refused}


def pairs_of(sch, g, lits=False):
    return [(n + 1, i + 1) for n, t in enumerate(g.nodes) if t[0] == "iri" or (lits and t[0] == "lit") for i in range(len(sch))]


def run_typing(c, part, cases, std=False, shuffle=True):
    """cases: (schema, [(graph, pairs)]); one session per schema, the graphs replaced one after another"""
    cmds, evs, where = [], [], []
    for sch, gs in cases:
        st = [{"op": "load_shex", "schema": shexc(sch, c.rng)}]
        for g, pairs in gs:
            st += [{"op": "load_data", "data": g.turtle(c.rng if shuffle else None), "format": "turtle", "merge": False},
                   {"op": "load_shapemap", "shapemap": smap(pairs, g.nodes)}, {"op": "validate_shex"}]
        cmds.append({"steps": st})
    ans = run_harness("h_lib", cmds, timeout=20)
    for k, ((sch, gs), a) in enumerate(zip(cases, ans)):
        for j, (g, pairs) in enumerate(gs):
            evs.append(typing_event(sch, g, pairs, a, std, 4 + 3 * j))
            where.append((k, j))
    c.validate(part, "ShExTrace", evs, sig=lambda i, w: None,
               replay=lambda i: {"steps": cmds[where[i][0]]["steps"][:1] + cmds[where[i][0]]["steps"][1 + 3 * where[i][1]:4 + 3 * where[i][1]]})
    return evs


def probe(c, key, sch, g, pairs):
    """one input that fails on the current tree for a reason listed in known_findings.jsonl"""
    cmd = {"steps": steps_for(sch, g, pairs)}
    ev = typing_event(sch, g, pairs, run_harness("h_lib", [cmd], timeout=20)[0], std=True)
    c.validate("probe " + key, "ShExTrace", [ev], replay=lambda i: cmd, sig=lambda i, w: key)


def x01(c):
    rng = c.rng
    cases = []
    for k in range(c.pick(4000, 30000)):
        gen = Gen(rng, labels=1, preds=rng.choice([1, 2, 2, 3]))
        sch = gen.schema(0)
        gs = [gen.gen_graph(rng.choice([2, 4, 5, 6])) for _ in range(4)]
        cases.append((sch, [(g, pairs_of(sch, g)) for g in gs]))
    run_typing(c, "shapes", cases)
    # the standard leaves incoming arcs that match nothing unrestricted; the tool wants all of them matched
    n = [iri(E + "n1"), iri(E + "n2"), lit("a")]
    tc = {"p": 1, "inv": True, "ve": nc(vals=[{"k": "obj", "t": n[0]}])}
    sch = [{"abs": False, "e": {"k": "shape", "closed": False, "extra": [], "ext": [], "tcs": [tc], "te": {"k": "sym", "v": 1, "min": 0, "max": 1}}}]
    g = Graph(n, [(2, 1, 1)])
    probe(c, "inverse-remainder", sch, g, [(1, 1)])


def x02(c):
    rng = c.rng
    cases = []
    for k in range(c.pick(3000, 25000)):
        neg = rng.random() < .6
        gen = Gen(rng, labels=rng.choice([1, 2, 2, 3, 3, 4]), preds=rng.choice([1, 2, 3]), refs=True, logic=rng.random() < .8, neg=neg,
                  maxtc=rng.choice([1, 2, 3]), groups=.3, extra=.15, closed=.2, inv=.08, nots=neg)
        sch = gen.schema(rng.choice([1, 2, 3]))
        gs = [gen.gen_graph(rng.choice([3, 5, 6])) for _ in range(4)]
        cases.append((sch, [(g, pairs_of(sch, g)) for g in gs]))
    run_typing(c, "logic and recursion", cases)
    cases = []
    for k in range(c.pick(800, 8000)):  # dense cyclic graphs of IRIs
        n = rng.choice([2, 3, 4])
        gen = Gen(rng, labels=rng.choice([1, 2, 3]), preds=rng.choice([1, 2]), refs=True, logic=rng.random() < .7, neg=rng.random() < .3,
                  maxtc=rng.choice([1, 1, 2]), groups=.2, extra=.1, closed=.2, inv=.05, nots=rng.random() < .3, nodes=[iri(E + "n%d" % (i + 1)) for i in range(n)])
        sch = gen.schema(rng.choice([0, 1, 2]))
        gs = []
        for _ in range(3):
            p = rng.choice([.4, .6, 1])
            gs.append(Graph(gen.nodes, [(a, q, b) for a in range(1, n + 1) for b in range(1, n + 1) for q in range(1, gen.preds + 1) if rng.random() < p / gen.preds]))
        cases.append((sch, [(g, pairs_of(sch, g)) for g in gs]))
    run_typing(c, "cyclic data", cases)
    cases = []
    for k in range(c.pick(400, 6000)):
        gen = Gen(rng, labels=rng.choice([1, 1, 2, 3]), preds=rng.choice([1, 2]), refs=True)
        sch = chain_schema(rng, gen)
        gs = [chain_graph(rng, gen, sch) for _ in range(3)]
        cases.append((sch, [(g, rng.sample(pairs_of(sch, g), 4) if rng.random() < .5 else pairs_of(sch, g)) for g in gs]))
    run_typing(c, "chains", cases)
    cases = []
    for n in (6, 12, 20):  # validation ends on large cyclic data (at most 7 arcs per node)
        for last in (False, True):
            nodes = [iri(E + "n%d" % (i + 1)) for i in range(n)] + [lit("a")]
            arcs = [(a, 1, (a + d) % n + 1) for a in range(1, n + 1) for d in range(5)] + ([(n, 1, n + 1)] if last else [])
            tc = {"p": 1, "inv": False, "ve": {"k": "ref", "i": 1}}
            sch = [{"abs": False, "e": {"k": "shape", "closed": False, "extra": [], "ext": [], "tcs": [tc], "te": {"k": "sym", "v": 1, "min": 0, "max": -1}}}]
            cases.append((sch, [(Graph(nodes, arcs), [(1, 1)])]))
    run_typing(c, "large cycles", cases)


def x03(c):
    rng = c.rng
    schs = []
    for k in range(c.pick(6000, 60000)):
        neg = rng.random() < .8
        gen = Gen(rng, labels=rng.choice([1, 2, 2, 3, 3, 4, 5]), preds=2, refs=True, logic=rng.random() < .8, neg=neg, maxtc=rng.choice([1, 2, 2]),
                  groups=.1, extra=rng.choice([0, .1, .4]), closed=.1, inv=.1, nots=neg, extends=rng.random() < .2)
        schs.append(gen.schema(rng.choice([1, 1, 2, 3])))
    cmds = [{"steps": [{"op": "load_shex", "schema": shexc(s, rng)}]} for s in schs]
    ans = run_harness("h_lib", cmds, timeout=20)
    evs = []
    for s, a in zip(schs, ans):
        r = was_refused(a)
        evs.append({"op": "neg", "sch": enc_schema(s), "refused": r, "fail": "" if r else failure(a)})
    c.validate("negation cycles", "ShExTrace", evs, replay=lambda i: cmds[i])


def chain_graph(rng, gen, sch):
    """a long chain or ring of nodes, with a few more arcs, ending in something else"""
    # explanations of failures double with every reference when a shape refers to the next node twice: shorter then
    twice = any(x["e"]["k"] != "shape" or sum(t["ve"]["k"] == "ref" for t in x["e"]["tcs"]) > 1 for x in sch)
    n = rng.choice([6, 8, 10, 11] if twice else [8, 11, 14, 18])
    nodes = [iri(E + "n%d" % (i + 1)) for i in range(n)] + [t for t in gen.nodes if t[0] != "iri"][:2]
    p = rng.randint(1, gen.preds)
    arcs = [(i, p if rng.random() < .9 else rng.randint(1, gen.preds), i + 1) for i in range(1, n)]
    if rng.random() < .4:
        arcs.append((n, p, rng.randint(1, n)))
    elif len(nodes) > n and rng.random() < .7:
        arcs.append((n, rng.randint(1, gen.preds), rng.randint(n + 1, len(nodes))))
    for _ in range(rng.choice([0, 0, 1, 3])):
        arcs.append((rng.randint(1, n), rng.randint(1, gen.preds), rng.randint(1, len(nodes))))
    return Graph(nodes, sorted(set(arcs)))


def chain_schema(rng, gen):
    """recursion along chains: label i refers to a label along the arcs, or stops at a value"""
    out = []
    for i in range(gen.labels):
        r = lambda: {"k": "ref", "i": rng.randint(1, gen.labels)}
        tcs = [{"p": rng.randint(1, gen.preds), "inv": False, "ve": r()} for _ in range(rng.choice([1, 1, 2]))] + [{"p": rng.randint(1, gen.preds), "inv": False, "ve": gen.simple_nc()}]
        cards = [(1, 1), (0, 1), (0, -1), (1, -1)]
        syms = [dict(zip(("min", "max"), rng.choice(cards)), k="sym", v=j + 1) for j in range(len(tcs))]
        e = {"k": "shape", "closed": rng.random() < .1, "extra": [], "ext": [], "tcs": tcs, "te": {"k": rng.choice(["and", "or", "or"]), "es": syms}}
        if rng.random() < .2:
            e = {"k": rng.choice(["or", "and"]), "es": [e, r()]}
        out.append({"abs": False, "e": e})
    return out


def x06(c):
    """the same pairs asked alone, together, repeatedly, in any order, on one session"""
    rng = c.rng
    cmds, evs, where = [], [], []
    todo = []
    for k in range(c.pick(2000, 20000)):
        neg = rng.random() < .5
        gen = Gen(rng, labels=rng.choice([2, 3, 3, 4]), preds=rng.choice([1, 2, 2]), refs=True, logic=rng.random() < .7, neg=neg, maxtc=rng.choice([1, 2, 3]),
                  groups=.3, extra=.15, closed=.2, inv=.05, nots=neg, extends=False)
        if rng.random() < .5:
            gen.nodes = [iri(E + "n%d" % (i + 1)) for i in range(rng.choice([3, 4]))] + ([lit("a")] if rng.random() < .5 else [])
        sch = gen.schema(rng.choice([0, 1, 2])) if k % 4 else chain_schema(rng, gen)
        g = gen.gen_graph(rng.choice([3, 5, 7, 9])) if k % 4 else chain_graph(rng, gen, sch)
        allp = pairs_of(sch, g)
        st = [{"op": "load_shex", "schema": shexc(sch, rng)}, {"op": "load_data", "data": g.turtle(rng), "format": "turtle", "merge": False}]
        asks = []
        for r in range(5):
            sub = list(allp) if r == 0 else rng.sample(allp, rng.choice([1, 1, 2, max(1, len(allp) // 2), len(allp)]) if len(allp) > 1 else 1)
            rng.shuffle(sub)
            if r and rng.random() < .2:
                st.append({"op": "load_shex", "schema": shexc(sch, rng)})
            if r and rng.random() < .2:
                st.append({"op": "load_data", "data": g.turtle(rng), "format": "turtle", "merge": False})
            st += [{"op": "load_shapemap", "shapemap": smap(sub, g.nodes)}, {"op": "validate_shex"}]
            asks.append((len(st), sub))
            if rng.random() < .3:
                st.append({"op": "validate_shex"})
                asks.append((len(st), sub))
        cmds.append({"steps": st})
        todo.append((sch, g, asks))
    ans = run_harness("h_lib", cmds, timeout=20)
    for k, ((sch, g, asks), a) in enumerate(zip(todo, ans)):
        for n, sub in asks:
            evs.append(typing_event(sch, g, sub, a, False, n))
            where.append(k)
    c.validate("batches", "ShExTrace", evs, replay=lambda i: cmds[where[i]])


def nc_cases(c, n, k=10):
    """schemas with one triple constraint per label, every value the object of its own node"""
    from .ncgen import node_constraint, near
    rng, cases = c.rng, []
    for _ in range(n):
        ncs = [node_constraint(rng) for _ in range(4)]
        vals = []
        for x in ncs:
            vals += [v for v in near(rng, x, k) if v not in vals]
        nodes = [iri(E + "v%d" % i) for i in range(len(vals))] + [v for v in vals]
        seen = {}
        arcs = []
        nodes = [iri(E + "v%d" % i) for i in range(len(vals))]
        for i, v in enumerate(vals):
            if v not in seen:
                nodes.append(v)
                seen[v] = len(nodes)
            arcs.append((i + 1, 1, seen[v]))
        sch = [{"abs": False, "e": {"k": "shape", "closed": False, "extra": [], "ext": [], "tcs": [{"p": 1, "inv": False, "ve": x}],
                                    "te": {"k": "sym", "v": 1, "min": 1, "max": 1}}} for x in ncs]
        cases.append((sch, [(Graph(nodes, arcs), [(i + 1, j + 1) for i in range(len(vals)) for j in range(len(ncs))])]))
    return cases


def x04(c):
    run_typing(c, "node constraints", nc_cases(c, c.pick(3000, 30000)))


def tcn(p, ve=None, inv=False):
    return {"p": p, "inv": inv, "ve": ve or ANY}


def ext_schema(rng, gen, feat):
    """a hierarchy; feat: subset of and, not, or, alias, ref, extra, closed, abstract, multi"""
    base = 2 if "extra" in feat and "ref" in feat else 1  # label 1 is then a plain shape nobody extends
    n = rng.choice([2, 3, 3, 4, 4]) + base - 1
    gen.labels = n
    out = []

    def value():
        if "ref" in feat and rng.random() < .3:
            # EXTRA negates the value expressions: no reference back into the hierarchy then
            return {"k": "ref", "i": 1 if "extra" in feat else rng.randint(1, n)}
        return ANY if rng.random() < .3 else gen.simple_nc()

    def shape(ext, top):
        k = rng.choice([0, 1, 1, 1, 2, 2])
        tcs = [tcn(rng.randint(1, gen.preds), value()) for _ in range(k)]
        syms = [dict(zip(("min", "max"), rng.choice([(1, 1), (1, 1), (0, 1), (0, -1), (1, -1), (2, 2), (1, 2)])), k="sym", v=i + 1) for i in range(k)]
        te = {"k": "empty"} if k == 0 else syms[0] if k == 1 else {"k": rng.choice(["and", "and", "and", "or"]), "es": syms}
        if k == 2 and rng.random() < .15:
            te = {"k": "rep", "e": te, "min": 0, "max": rng.choice([1, 2, -1])}
        return {"k": "shape", "closed": top and "closed" in feat and rng.random() < .4, "tcs": tcs, "te": te, "ext": ext,
                "extra": [rng.randint(1, gen.preds)] if top and "extra" in feat and rng.random() < .4 else []}

    for i in range(1, n + 1):
        ext = []
        if i > base and rng.random() < .85:
            ext = rng.sample(range(base, i), min(i - base, 2 if "multi" in feat and rng.random() < .5 else 1))
        e = shape(ext, i == n)
        r = rng.random()
        if base == 2 and i == 1:
            e["tcs"] = [tcn(t["p"], gen.simple_nc()) for t in e["tcs"]]
            r = 1
        if "and" in feat and r < .3:
            x = rng.random()
            con = gen.simple_nc() if x < .3 else shape([], True)
            if con["k"] == "nc":
                con = nc(kind=rng.choice(["iri", "bnode", "nonliteral"])) if rng.random() < .7 else con
            if "not" in feat and rng.random() < .4:
                con = {"k": "not", "e": con}
            e = {"k": "and", "es": [e, con] if con["k"] != "nc" or rng.random() < .5 else [con, e]}
            if rng.random() < .4:
                e["es"].append(shape([], True) if rng.random() < .7 else nc(kind=rng.choice(["iri", "bnode", "nonliteral"])))
        elif "or" in feat and r < .5:
            e = {"k": "or", "es": [e, shape([], False)]}
        elif "alias" in feat and "multi" not in feat and r < .6 and i > 1:
            e = {"k": "ref", "i": rng.randint(1, i - 1)}
        out.append({"abs": "abstract" in feat and rng.random() < .3, "e": e})
    return out


X05_FEATS = ["and", "not", "or", "alias", "ref", "extra", "closed", "abstract", "multi"]


def x05_cases(c, n, feats=None):
    rng, cases = c.rng, []
    for _ in range(n):
        feat = feats if feats is not None else {f for f in X05_FEATS if rng.random() < .4}
        gen = Gen(rng, preds=rng.choice([1, 2, 2, 3]))
        sch = ext_schema(rng, gen, feat)
        gs = [gen.gen_graph(rng.choice([2, 3, 4, 5])) for _ in range(5)]
        cases.append((sch, [(g, pairs_of(sch, g)) for g in gs]))
    return cases


def x05_split(c, n):
    """nodes with many arcs, to be split among a shape and its ancestors by their values"""
    rng, cases = c.rng, []
    I = [lit(str(k), "integer") for k in range(1, 5)]
    for _ in range(n):
        L = rng.choice([2, 2, 3])
        sch = []
        for i in range(1, L + 1):
            tcs, syms = [], []
            for p in (1, 2):
                if L == 3 and rng.random() < .4:
                    continue
                k = rng.choice([1, 1, 2]) if L == 2 else 1
                for _ in range(k):
                    tcs.append(tcn(p, nc(vals=[{"k": "obj", "t": t} for t in rng.sample(I, rng.choice([1, 2, 2, 3]))])))
                    lo, hi = rng.choice([(1, 1), (2, 2), (2, 2), (1, 2), (0, 2)])
                    syms.append({"k": "sym", "v": len(syms) + 1, "min": lo, "max": hi})
            ext = [] if i == 1 else [rng.randint(1, i - 1)] if rng.random() < .8 else list(range(1, i))
            sch.append({"abs": False, "e": {"k": "shape", "closed": False, "tcs": tcs, "te": {"k": "and", "es": syms} if len(syms) > 1 else syms[0] if syms else {"k": "empty"}, "ext": ext, "extra": []}})
        nodes = [iri(E + "n1")] + I
        gs = []
        for _ in range(4):
            arcs = [(1, p, v + 2) for p in (1, 2) for v in range(4) if rng.random() < .85]
            while len(arcs) > (7 if L == 2 else 6):  # the partitions are enumerated: many arcs take long
                arcs.pop(rng.randrange(len(arcs)))
            gs.append(Graph(nodes, arcs))
        cases.append((sch, [(g, pairs_of(sch, g)) for g in gs]))
    return cases


def x05(c):
    import os
    f = os.environ.get("X05_FEATS")
    run_typing(c, "inheritance", x05_cases(c, c.pick(2500, 25000), None if f is None else set(f.split(","))))
    run_typing(c, "splits", x05_split(c, c.pick(500, 5000)))
