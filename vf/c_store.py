"""G01, G02: the RDF store and its serializations."""
import random
from . import core
from . import rdfgen
from .shaclgen import iri, bn, lit, enc, nt_term

E = "http://e/"
TYPE = iri(rdfgen.RDFNS + "type")
SUBJ = [iri(E + "a"), iri(E + "b"), iri(E + "c"), bn("b1"), bn("1")]
PRED = [iri(E + "p"), iri(E + "q"), TYPE]
CLS = [iri(E + "C"), iri(E + "D")]
LITS = [lit("1", "integer"), lit("x"), lit("x", "", "en"), lit("x", "", "fr"), lit("true", "boolean"), lit("1.5", "decimal"), lit("x", "http://e/dt")]
POOL = SUBJ + PRED + CLS + LITS
IDX = {t: i + 1 for i, t in enumerate(POOL)}
FMTS = ["turtle", "turtle", "ntriples", "rdfxml", "jsonld", "nquads", "trig", "n3"]


def term(rng, pool):
    return rng.choice(pool)


def triple(rng, anon=0, few=False):
    s = rng.choice(SUBJ[:3] if few or rng.random() < .5 else SUBJ)
    p = rng.choice(PRED[:2] if few else PRED)
    if p == TYPE:
        o = rng.choice(CLS)
    else:
        o = rng.choice(SUBJ[:2] + LITS[:2] if few or rng.random() < .5 else SUBJ + CLS + LITS)
    if anon:
        if rng.random() < .3:
            s = ("anon", rng.randrange(1, anon + 1))
        elif rng.random() < .3:
            o = ("anon", rng.randrange(1, anon + 1))
    return s, p, o


def tid(t):
    return -t[1] if t[0] == "anon" else IDX[t]


def qterm(x, names):
    if x < 0:
        return names[x]
    return rdfgen.nt(POOL[x - 1])


def step(rng, kinds):
    g = rng.choice([1, 1, 2])
    r = rng.random()
    if r < .40:
        k = rng.choice(["merge", "merge", "merge", "add", "add", "add_ref", "type", "remove", "remove", "remove", "remove", "bnode", "clone", "new"])
        if k == "clone":
            return {"op": "clone", "g": g, "from": 3 - g}, {}
        if k == "new":
            if rng.random() < .5:
                return {"op": "new", "g": g}, {"kind": rng.choice(["mem", "data"])}
            k = "add"
        if k == "merge":
            fmt = rng.choice(FMTS)
            anon = rng.choice([0, 0, 0, 1, 2])
            n = rng.choice([1, 2, 4])
            few = rng.random() < .5
            ts = list(dict.fromkeys(triple(rng, anon, few) for _ in range(n)))
            if rng.random() < .2:
                ts = ts + ts[:1]
            use = sorted({x[1] for t in ts for x in t if x[0] == "anon"})
            # labels _:anonK would be shared between documents: only syntaxes with true anonymous nodes have them
            if use and fmt not in ("turtle", "trig", "n3"):
                fmt = "turtle"
            if use:
                ts = anon_safe(ts)
            if fmt == "rdfxml" and any(x == bn("1") for t in ts for x in t):   # not an XML name
                fmt = "nquads"
            txt = rdfgen.write(ts, fmt, rng)
            x = {"format": {"rdfxml": "rdf/xml"}.get(fmt, fmt), "data": txt}
            if fmt not in ("ntriples", "nquads") and rng.random() < .25:
                x["base"] = E
                x["data"] = rdfgen.FORMATS[fmt](ts, rng, base=E)
            if fmt in ("ntriples", "nquads") and rng.random() < .3:   # a bad line is skipped in lax mode
                lines = txt.split("\n")
                lines.insert(rng.randrange(len(lines)), "<http://e/a> nonsense .")
                x.update(data="\n".join(lines), mode="lax")
            return {"op": "merge", "g": g, "ts": [[tid(a), tid(b), tid(o)] for a, b, o in ts]}, x
        s, p, o = triple(rng, few=rng.random() < .6)
        if k == "type":
            return {"op": "type", "g": g, "s": IDX[s], "o": IDX[rng.choice(CLS)]}, {}
        if k == "bnode":
            return {"op": "bnode", "g": g, "p": IDX[p], "o": IDX[o]}, {}
        return {"op": k, "g": g, "s": IDX[s], "p": IDX[p], "o": IDX[o]}, {}
    few = rng.random() < .7
    s, p, o = (IDX[t] for t in triple(rng, few=few))
    if rng.random() < .45:
        k = rng.choice(["select", "select", "ask", "construct"])
        n = rng.choice([1, 1, 1, 2])
        pat = []
        for _ in range(n):
            a, b, c = (IDX[t] for t in triple(rng, few=few))
            if POOL[a - 1][0] == "bnode":
                a = -1
            if POOL[c - 1][0] == "bnode":
                c = -2
            pat.append([rng.choice([-1, -1, -2, a]), rng.choice([b, b, -3]), rng.choice([-1, -2, -2, c])])
        vs = sorted({x for q in pat for x in q if x < 0}, reverse=True)
        if k == "select" and not vs:
            k = "ask"
        names = {-1: "?x", -2: "?y", -3: "?z"}
        body = " . ".join(" ".join(qterm(x, names) for x in q) for q in pat)
        tmpl = " ".join(qterm(x, names) for x in pat[0])
        q = {"select": "SELECT " + " ".join(names[v] for v in vs) + " WHERE { " + body + " }", "ask": "ASK { " + body + " }", "construct": "CONSTRUCT { " + tmpl + " } WHERE { " + body + " }"}[k]
        return {"op": k, "g": g, "pat": pat, "vars": vs}, {"query": q, "vars": [names[v][1:] for v in vs]}
    k = rng.choice(["triples", "match", "match", "match", "match", "shortcut", "shortcut", "contains", "out", "in", "out_list", "in_list", "objects", "subjects", "instances", "len", "async_preds", "async_objects", "async_subjects"])
    if k == "triples":
        s = p = o = 0
    elif k in ("match", "shortcut", "contains"):
        s, p, o = (x if rng.random() < .5 else 0 for x in (s, p, o))
    elif k == "instances":
        o = IDX[rng.choice(CLS)]
    ps = [IDX[x] for x in rng.sample(PRED, rng.choice([0, 1, 1, 2]))]
    return {"op": k, "g": g, "s": s, "p": p, "o": o, "ps": ps}, {}


def anon_safe(ts):
    """every anonymous node is referred to at most once and not in a cycle, so that [ ] can write it"""
    out, seen = [], set()
    for s, p, o in ts:
        if o[0] == "anon":
            if o in seen or s[0] == "anon":
                o = SUBJ[0]
            seen.add(o)
        out.append((s, p, o))
    return list(dict.fromkeys(out))


def full(op, extra):
    """the command for the harness"""
    d = {"op": op["op"], "g": op["g"]}
    for k in ("from",):
        if k in op:
            d[k] = op[k]
    for k in ("s", "p", "o"):
        if op.get(k):
            d[k] = rdfgen.nt(POOL[op[k] - 1])
    if "ps" in op:
        d["ps"] = [rdfgen.nt(POOL[x - 1]) for x in op["ps"]]
    d.update(extra)
    return d


class Reader:
    def __init__(self):
        self.labels = {}

    def t(self, x):
        t = nt_term(x)
        if t in IDX:
            return IDX[t]
        return self.labels.setdefault(t, 1000001 + len(self.labels)) if t[0] == "bnode" else 900000   # a term that nobody wrote

    def val(self, op, v):
        k = op["op"]
        if k in ("triples", "match", "shortcut", "out", "in", "in_list", "construct", "select"):
            return [[self.t(x) if x else 800000 for x in r] for r in v]
        if k == "out_list":
            return {"arcs": [[self.t(x) for x in r] for r in v["arcs"]], "rest": [self.t(x) for x in v["rest"]]}
        if k in ("objects", "subjects", "instances") or k.startswith("async"):
            return [self.t(x) for x in v]
        if k == "bnode":
            return self.t(v)
        return v if v is not None else 0


def event(ops, ans):
    rd = Reader()
    obs = []
    if "out" not in ans:
        obs = [{"fail": str(ans)[:200], "v": 0}]
    else:
        for op, a in zip(ops, ans["out"]):
            if "ok" not in a:
                obs.append({"fail": str(a)[:300], "v": 0})
            elif a["ok"] == "n/a":
                obs.append(None)
            else:
                obs.append({"fail": "", "v": rd.val(op, a["ok"])})
    keep = [i for i, o in enumerate(obs) if o is not None]
    lost = ops[len(obs):] if "out" in ans else ops[1:]
    return {"type": IDX[TYPE], "bnodes": [IDX[t] for t in POOL if t[0] == "bnode"], "ops": [ops[i] for i in keep] + lost, "obs": [obs[i] for i in keep]}


def run_histories(c, part, hs):
    cmds = [{"op": "store", "steps": [full(o, x) for o, x in h]} for h in hs]
    ans = core.run_harness("h_core", cmds, timeout=60)
    evs = [event([o for o, _ in h], a["out"] if False else a) for h, a in zip(hs, ans)]
    c.validate(part, "StoreTrace", evs, replay=lambda i: cmds[i])
    return cmds, ans


def history(rng):
    n = rng.choice([6, 12, 20, 30])
    return [step(rng, None) for _ in range(n)]


def short_histories(n, rng):
    """every history of n steps over a small alphabet, queried in between, both handles looked at afterwards"""
    a, b, p, x = SUBJ[0], SUBJ[1], PRED[0], LITS[0]
    t1, t2 = (a, p, b), (b, p, x)
    i = lambda t: dict(zip("spo", (IDX[y] for y in t)))
    def load(ts, f="ntriples"):
        return {"op": "merge", "g": 1, "ts": [[IDX[y] for y in t] for t in ts]}, {"format": f, "data": rdfgen.FORMATS[f](ts, random.Random(1))}
    q = {"op": "select", "pat": [[-1, IDX[p], -2]], "vars": [-1, -2]}
    qx = {"query": "SELECT ?x ?y WHERE { ?x <http://e/p> ?y }", "vars": ["x", "y"]}
    alpha = [({"op": "add", "g": 1, **i(t1)}, {}), ({"op": "remove", "g": 1, **i(t1)}, {}), load([t1, t2], "turtle"), load([t2]), ({"op": "clone", "g": 2, "from": 1}, {}), ({"op": "clone", "g": 1, "from": 2}, {}), ({"op": "add_ref", "g": 2, **i(t2)}, {}), (dict(q, g=1), qx)]
    end = [({"op": "triples", "g": g, "s": 0, "p": 0, "o": 0, "ps": []}, {}) for g in (1, 2)] + [(dict(q, g=g), qx) for g in (1, 2)]
    import itertools
    return [[({"op": "new", "g": g}, {"kind": k}) for g, k in ((1, "mem"), (2, "data"))] + list(h) + end for h in itertools.product(alpha, repeat=n)]


def probe(c):
    """the query store keeps the values of numeric literals, not their lexical forms (see known_findings.jsonl)"""
    idx = {iri(E + "a"): 1, iri(E + "p"): 2, lit("01", "integer"): 3}
    ops = [{"op": "new", "g": 1}, {"op": "merge", "g": 1, "ts": [[1, 2, 3]]}, {"op": "select", "g": 1, "pat": [[1, 2, -1]], "vars": [-1]}]
    cmd = {"op": "store", "steps": [{"op": "new", "g": 1, "kind": "mem"}, {"op": "merge", "g": 1, "format": "turtle", "data": "<http://e/a> <http://e/p> 01 ."}, {"op": "select", "g": 1, "query": "SELECT ?x { <http://e/a> <http://e/p> ?x }", "vars": ["x"]}]}
    a = core.run_harness("h_core", [cmd], timeout=30)[0]
    rows = [[idx.get(nt_term(x), 900000) for x in r] for r in a["out"][2]["ok"]] if "out" in a and "ok" in a["out"][-1] else []
    ev = {"type": 0, "bnodes": [], "ops": ops, "obs": [{"fail": "", "v": 0}] * 2 + [{"fail": "", "v": rows}]}
    c.validate("probe noncanonical", "StoreTrace", [ev], replay=lambda i: cmd, sig=lambda i, w: "noncanonical-literal-in-query")


def g01(c):
    run_histories(c, "every short history", short_histories(c.pick(4, 5), c.rng))
    probe(c)
    run_histories(c, "histories", [history(c.rng) for _ in range(c.pick(6000, 60000))])


# ------------------------------------------------------------------ round trips
ODD = ["", " ", "a b", " lead", "trail ", "tab\tx", "two\nlines", "cr\rx", 'quo"te', "back\\slash", "\\n", "'", "<tag>", "&amp;", "]]>", "é", "日本", "\U0001F600", "a\u0301", "{}", "#", "@en", '"""', 'x""', "\u00a0", "\u200b", "%20", "^^", "\\u0041", "1", "true", "\u2028", "end\\"]
CTRL = ["\u0001", "\b", "\f", "\u007f", "\x1f"]
IRIS = ["http://e/a", "http://e/b", "http://e/", "http://e/a.b", "http://e/a.", "http://e/a-b", "http://e/1a", "http://e/a/b", "http://e/a#b", "http://e/a?q=1&r=2", "http://e/a%20b", "http://e/é", "http://e/(x)", "http://e/x'y", "http://e/a,b;c", "http://e/~x!$*+=@", "urn:x:y", "mailto:a@b", "http://e/:x", "http://e/a:b", "http://f.org#", "http://f.org#x", "http://e/_x", "http://e/日", "http://e/-x", "http://e/a%C3%A9", "tag:x,2020:y"]
PREDS = ["http://e/p", "http://e/q", "http://f.org#x", "http://e/p-q", "http://e/p.q", "http://e/_p", "http://e/é", rdfgen.RDFNS + "type", rdfgen.RDFNS + "first", rdfgen.RDFNS + "rest", rdfgen.RDFNS + "_1", rdfgen.RDFNS + "value", "urn:x:y", "http://e/a?q", "http://e/a#b"]
PREDX = ["http://e/1", "http://e/", "http://e/a/", "http://e/p%20q", "http://e/2p", "http://f.org#"]   # RDF/XML cannot write all of these
DTS = ["integer", "decimal", "double", "boolean", "date", "dateTime", "string", "http://e/dt", rdfgen.RDFNS + "HTML", rdfgen.RDFNS + "XMLLiteral", "anyURI"]
LANGS = ["en", "en-us", "zh-hant-tw", "x-foo", "de-1996"]
PFX = [("", "http://e/"), ("e", "http://e/"), ("f", "http://f.org#"), ("x", "http://e/a"), ("u", "urn:x:"), ("rdf", rdfgen.RDFNS), ("xsd", rdfgen.XSD), ("a-b", "http://e/"), ("ea", "http://e/a/")]


def odd_term(rng, xml, kind=None):
    k = kind or rng.choice(["iri", "iri", "lit", "lit", "lit", "bn", "bn"])
    if k == "iri":
        return iri(rng.choice(IRIS))
    if k == "bn":
        return bn(rng.choice(["b0", "b1", "x", "B-1", "a.b", "é", "1", "0b1", "b.1"]))
    v = rng.choice(ODD if xml or rng.random() < .9 else CTRL)
    if rng.random() < .3:
        v += rng.choice(ODD)
    r = rng.random()
    if r < .3:
        return lit(v, "", rng.choice(LANGS))
    if r < .7:
        return lit(v)
    d = rng.choice(DTS)
    if d in ("integer", "decimal", "double", "boolean", "date", "dateTime") and rng.random() < .7:
        v = {"integer": ["1", "01", "+1", "-0"], "decimal": ["1.0", "1.50", ".5", "1."], "double": ["1E0", "1.0e1", "NaN", "INF"], "boolean": ["1", "true", "false", "0"], "date": ["2020-01-01", "2020-01-01Z"], "dateTime": ["2020-01-01T00:00:00", "2020-01-01T00:00:00.50+01:00"]}[d]
        v = rng.choice(v)
    return lit(v, d)


def odd_graph(rng, xml):
    nn = rng.choice([1, 2, 3])
    subs = [odd_term(rng, xml, "iri" if rng.random() < .6 else "bn") for _ in range(nn)]
    ts = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 7])):
        p = iri(rng.choice(PREDS if xml or rng.random() < .8 else PREDX))
        o = rng.choice(subs) if rng.random() < .3 else odd_term(rng, xml)
        ts.append((rng.choice(subs), p, o))
    if rng.random() < .15:   # a collection
        cells = [bn("l%d" % i) for i in range(rng.choice([1, 2, 3]))]
        F, N = iri(rdfgen.RDFNS + "first"), iri(rdfgen.RDFNS + "rest")
        for i, c in enumerate(cells):
            if rng.random() < .95:
                ts.append((c, F, odd_term(rng, xml)))
            ts.append((c, N, cells[i + 1] if i + 1 < len(cells) else iri(rdfgen.RDFNS + "nil")))
        if rng.random() < .8:
            ts.append((subs[0], iri("http://e/list"), cells[0]))
    if rng.random() < .1:   # something said twice about one pair of nodes, with different terms
        ts += [(ts[0][0], ts[0][1], lit("x", "", "en")), (ts[0][0], ts[0][1], lit("x"))] if ts else []
    ts = list(dict.fromkeys(ts))
    if len({x for t in ts for x in t if x[0] == "bnode"}) > 4:
        return odd_graph(rng, xml)
    return ts


def roundtrip(rng, lib):
    fmts = [rng.choice(["turtle", "turtle", "ntriples", "rdfxml", "rdfxml", "jsonld", "jsonld", "nquads", "trig", "n3"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    ts = odd_graph(rng, "rdfxml" in fmts)
    pool = list(dict.fromkeys(x for t in ts for x in t))
    idx = {t: i + 1 for i, t in enumerate(pool)}
    pf = rng.sample(PFX, rng.choice([0, 0, 1, 2, 4]))
    doc = rdfgen.ntriples(ts, rng)
    ops, cmd = [], []
    merge = {"op": "merge", "g": 1, "ts": [[idx[x] for x in t] for t in ts]}
    look = {"op": "triples", "g": 1, "s": 0, "p": 0, "o": 0, "ps": []}
    if lib:
        doc = "".join(f"@prefix {a}: <{n}> .\n" for a, n in pf) + doc
        cmd = [{"op": "load_data", "data": doc, "format": "turtle"}]
        ops = [merge]
        for f in fmts:
            ops.append({"op": "reload", "g": 1, "from": 1})
            cmd.append({"op": "reload", "format": f, "reset": rng.random() < .5})
        ops.append(look)
        cmd.append({"op": "serialize_data", "format": "ntriples"})
    else:
        ops = [{"op": "new", "g": 1}] + [{"op": "prefix", "g": 1} for _ in pf] + [merge]
        cmd = [{"op": "new", "g": 1, "kind": rng.choice(["mem", "data"])}] + [{"op": "prefix", "g": 1, "alias": a, "iri": n} for a, n in pf] + [{"op": "merge", "g": 1, "format": "ntriples", "data": doc}]
        for f in fmts:
            ops.append({"op": "reload", "g": 1, "from": 1})
            cmd.append({"op": "reload", "g": 1, "from": 1, "format": {"rdfxml": "rdf/xml"}.get(f, f)})
        ops.append(look)
        cmd.append({"op": "triples", "g": 1})
    return ops, cmd, idx


NTLINE = __import__("re").compile(r'^(<[^>]*>|_:\S+) (<[^>]*>) (.*) \.$')


def rt_event(ops, idx, ans, lib):
    seen = {}

    def rd(x):
        t = nt_term(x)
        if t[3]:
            t = (t[0], t[1], t[2], t[3].lower())
        if t[0] == "bnode":
            return seen.setdefault(t, 1000001 + len(seen))
        return idx.get(t, 900000)
    obs = []
    for op, a in zip(ops, ans.get("out", [{"panic": str(ans)}])):
        if "ok" not in a:
            obs.append({"fail": str(a)[:600], "v": 0})
        elif op["op"] == "triples":
            rows = [NTLINE.match(l).groups() for l in a["ok"].split("\n") if l.strip()] if lib else a["ok"]
            obs.append({"fail": "", "v": [[rd(x) for x in r] for r in rows]})
        else:
            obs.append({"fail": "", "v": 0})
    return {"type": 0, "bnodes": [i for t, i in idx.items() if t[0] == "bnode"], "ops": ops, "obs": obs}


def g02(c):
    for part, h, lib, n in (("stores", "h_core", False, c.pick(6000, 60000)), ("sessions", "h_lib", True, c.pick(3000, 30000))):
        rs = [roundtrip(c.rng, lib) for _ in range(n)]
        cmds = [{"op": "store", "steps": x[1]} if not lib else {"op": "script", "steps": x[1]} for x in rs]
        ans = core.run_harness(h, cmds, timeout=60)
        c.validate(part, "StoreTrace", [rt_event(x[0], x[2], a, lib) for x, a in zip(rs, ans)], replay=lambda i: cmds[i])
