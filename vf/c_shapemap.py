"""X07: query shape maps."""
from .core import run_harness
from .shexgen import *
from .c_shex import failure, node_key, CLS, was_refused

TYPE = 7
NODES = [iri(E + "n1"), iri(E + "n2"), iri(E + "n3"), lit("1", "integer"), lit("01", "integer"), lit("a"), lit("a", "", "en"), lit("true", "boolean"),
         lit("1.50", "decimal"), lit("1e0", "double"), lit("2020-01-01", "date"), lit("a b", E + "dt"), lit('q"q'), lit("a", "", "en-GB"), lit("é\\x"), bn("b1"),
         iri(E + "é"), iri("urn:x:y"), lit(""), iri(E + "a/b?c=d#e")]
# the query engine reports the values of these, not their lexical forms (known finding, probed below)
ODD = {("1e0", "double"), ("01", "integer"), ("1.50", "decimal")}
UNDECLARED = 99


def canonical(t):
    return t[0] != "lit" or (t[1], t[2]) not in ODD


def short(rng, t):
    """a node in one of the forms that shape maps allow"""
    k, s, dt, lang = t
    if k == "iri" and s.startswith(E) and s[len(E):].isalnum() and rng.random() < .5:
        return ":" + s[len(E):]
    if k == "lit" and rng.random() < .6:
        if dt in ("integer", "boolean") or (dt, s) in (("decimal", "1.50"), ("double", "1e0")):
            return s
        if dt == "string" and "'" not in s and "\\" not in s:
            return rng.choice(["'%s'", "\"\"\"%s\"\"\""]) % s if not s.endswith('"') and '"' not in s else "'%s'" % s
        if dt == "date":
            return '"%s"^^xsd:date' % s
    return ttl(t)


def p_pred(rng, i):
    if i == TYPE:
        return rng.choice(["a", "a", ttl(iri(RDFNS + "type"))])
    return rng.choice([pred(i), ":" + PREDS[i - 1]])


def query(rng, s):
    p, q = pred(s["p"]), pred(s.get("q", 1))
    k = s["k"]
    if k == "tp":
        n = rng.choice(["?z", "[]"]) if s["n"] == 0 else s["nt"]
        return f"SELECT ?x WHERE {{ ?x {p} {n} }}" if s["at"] == "s" else f"SELECT {rng.choice(['', 'DISTINCT '])}?x {{ {n} {p} ?x }}"
    if k == "join":
        rest = [v for v in "xyz" if v != s["at"]]
        rng.shuffle(rest)
        return "SELECT " + " ".join("?" + v for v in [s["at"]] + rest[:rng.randint(0, 2)]) + f" WHERE {{ ?x {p} ?y . ?y {q} ?z }}"
    if k == "union":
        return f"SELECT ?x ?y WHERE {{ {{ ?x {p} ?y }} UNION {{ ?y {q} ?x }} }}"
    if k == "opt":
        return f"SELECT ?y ?x WHERE {{ ?x {p} ?z OPTIONAL {{ ?x {q} ?y }} }}"
    if k == "filter":
        return f"SELECT ?x WHERE {{ ?y {p} ?x FILTER(isIRI(?x)) }}"
    if k == "notex":
        return f"SELECT ?x WHERE {{ ?x {p} ?y FILTER NOT EXISTS {{ ?x {q} ?z }} }}"


def selector(rng, g, preds):
    """(selector for the specification, its text)"""
    p, q = rng.choice(preds), rng.choice(preds)
    named = [i + 1 for i, t in enumerate(g.nodes) if t[0] != "bnode"]
    r = rng.random()
    if r < .3:
        n = rng.choice(named)
        return {"k": "node", "n": n}, short(rng, g.nodes[n - 1])
    if r < .7:
        at = rng.choice("so")
        pool = named if at == "s" else [n for n in named if g.nodes[n - 1][0] == "iri"]
        pool = [n for n in pool if canonical(g.nodes[n - 1])]
        n = rng.choice([0, 0] + rng.sample(pool, min(2, len(pool))))
        s = {"k": "tp", "at": at, "p": p, "n": n}
        other = "_" if n == 0 else short(rng, g.nodes[n - 1])
        if rng.random() < .2:
            s["nt"] = "" if n == 0 else ttl(g.nodes[n - 1])
            text = "SPARQL '''" + query(rng, s).replace("\\", "\\\\") + "'''"
            s.pop("nt")
            return s, text
        f = rng.choice(["FOCUS", "FOCUS", "focus"])
        sp = rng.choice(["", " "])
        return s, "{" + sp + (f"{f} {p_pred(rng, p)} {other}" if at == "s" else f"{other} {p_pred(rng, p)} {f}") + sp + "}"
    k = rng.choice(["join", "union", "opt", "filter", "notex"])
    s = {"k": k, "p": p, "q": q}
    if k == "join":
        s["at"] = rng.choice("xyz")
    return s, rng.choice(["SPARQL", "SPARQL", "sparql"]) + " " + rng.choice(['"%s"', "'%s'", '"""%s"""']) % query(rng, s)


def rows_of(rows, nodes, nlabels):
    keys = {node_key(t): i + 1 for i, t in enumerate(nodes)}
    blank = [i + 1 for i, t in enumerate(nodes) if t[0] == "bnode"]
    labs = {E + "S%d" % i: i for i in range(1, nlabels + 1)}
    labs.update({"START": 0, "Start": 0, E + "NONE": UNDECLARED})
    out, bad = [], ""
    for n, l, st in rows:
        m, l = n.strip("<>") if n.startswith("<") else n, l.strip("<>")
        if m.startswith("_:"):
            i = blank[0] if blank else None
        else:
            i = keys.get(m)
        if i is None or l not in labs or st not in CLS:
            bad = f"unexpected row {n} {l} {st}"
            continue
        out.append([i, labs[l], CLS[st]])
    return out, bad


def x07(c):
    rng = c.rng
    cmds, docs = [], []
    for _ in range(c.pick(3000, 40000)):
        nodes = NODES[:2] + rng.sample(NODES[2:], rng.choice([2, 3, 4]))
        gen = Gen(rng, labels=rng.choice([1, 2]), preds=2, nodes=nodes, refs=rng.random() < .4, logic=rng.random() < .3, nots=False, inv=0, maxtc=2, extra=.2)
        sch = gen.schema(1)
        start = rng.choice([None, {"k": "ref", "i": 1}, gen.se(1)])
        full = sch + ([{"abs": False, "e": start}] if start else [])
        preds = [1, 2, TYPE]
        objs = [i + 1 for i, t in enumerate(nodes) if canonical(t)]
        subj = [i + 1 for i, t in enumerate(nodes) if t[0] != "lit"]
        st, evs = [{"op": "load_shex", "schema": "PREFIX : <%s>\n" % E + shexc(sch, rng, start)}], []
        for _ in range(2):
            arcs = sorted({(rng.choice(subj), rng.choice(preds), rng.choice(objs)) for _ in range(rng.randint(0, 5))})
            g = Graph(nodes, arcs)
            assocs, text = [], []
            for _ in range(rng.choice([1, 2, 3, 4])):
                s, t = selector(rng, g, preds)
                l = rng.choice(list(range(1, len(sch) + 1)) * 3 + ([0] * 3 if start else []) + [UNDECLARED])
                assocs.append({"sel": s, "shape": l})
                lt = rng.choice(["START", "START", "start"]) if l == 0 else rng.choice([f"<{E}NONE>", ":NONE"]) if l == UNDECLARED else rng.choice([label(l), ":S%d" % l])
                text.append(t + rng.choice(["@", "@", " @ "] if lt[0] in "<:" else [" @", " @ "]) + lt)
            m = rng.choice([",", ", ", " ,\n"]).join(text)
            first = len(st)
            st += [{"op": "load_data", "data": "@prefix : <%s> .\n@prefix xsd: <%s> .\n" % (E, XSD) + g.turtle(rng), "format": "turtle", "merge": False},
                   {"op": "load_shapemap", "shapemap": m}]
            st += [{"op": "shapemap_roundtrip"}] * rng.choice([0, 0, 1, 1, 2]) + [{"op": "shex_rows"}]
            evs.append((g, assocs, first, len(st)))
        cmds.append({"steps": st})
        docs.append((full, len(sch), evs))
    ans = run_harness("h_lib", cmds, timeout=20)
    events, where = [], []
    for k, ((sch, n, evs), a) in enumerate(zip(docs, ans)):
        for g, assocs, first, step in evs:
            refused = was_refused(a)
            f = "" if refused else failure(a, step)
            obs = []
            if not f and not refused:
                obs, f = rows_of(a["out"][step - 1]["ok"], g.nodes, n)
            events.append({"sch": enc_schema(sch), "g": g.enc(), "start": len(sch), "assocs": assocs, "obs": obs, "fail": f, "refused": refused})
            where.append((k, first, step))
    c.validate("maps", "ShapeMapTrace", events,
               replay=lambda i: {"steps": cmds[where[i][0]]["steps"][:1] + cmds[where[i][0]]["steps"][where[i][1]:where[i][2]]})
    c.validate("probe noncanonical", "ShapeMapTrace", [probe()], sig=lambda i, w: "noncanonical-literal-selected")


def probe():
    nodes = [iri(E + "n1"), lit("01", "integer")]
    g = Graph(nodes, [(1, 1, 2)])
    sch = [{"abs": False, "e": {"k": "shape", "closed": False, "extra": [], "ext": [], "tcs": [], "te": {"k": "empty"}}}]
    a = run_harness("h_lib", [{"steps": [
        {"op": "load_shex", "schema": "<%sS1> { }" % E}, {"op": "load_data", "data": g.turtle(None), "format": "turtle"},
        {"op": "load_shapemap", "shapemap": "{ _ <%sp> FOCUS }@<%sS1>" % (E, E)}, {"op": "shex_rows"}]}], timeout=20)[0]
    f, obs = failure(a, 4), []
    if not f:
        obs, f = rows_of(a["out"][3]["ok"], nodes, 1)
    return {"sch": enc_schema(sch), "g": g.enc(), "start": 1, "assocs": [{"sel": {"k": "tp", "at": "o", "p": 1, "n": 0}, "shape": 1}], "obs": obs, "fail": f, "refused": False}
