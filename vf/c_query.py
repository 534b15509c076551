"""Q01: answers of SPARQL queries over the data."""
import csv, io, json
from .core import run_harness
from .c_shex import failure
from .sparqlgen import *


GRAPHS = ["ntriples"] * 4 + ["nquads", "turtle", "turtle", "rdfxml", "trig", "n3", "jsonld"]
LINES = ("ntriples", "nquads")      # a line for each triple


def case(rng):
    cs = Case()
    strs = rng.random() < .3
    lits = [lit("a"), lit("b"), lit("a", "", "en"), lit("b", "", "fr"), lit("1", "integer")] if strs else [lit(str(i), "integer") for i in (1, 2, 5, 10)]
    res = RES_I[:4] + [bn("x1"), bn("x2")] * (rng.random() < .4)
    for _ in range(rng.choice([3, 8, 12, 16])):
        cs.arc(rng.choice(res), rng.choice(PREDS), rng.choice(res + lits))
    consts = [t for t in cs.nodes if t[0] != "bnode"]
    if not any(t[0] == "iri" for t in consts):
        return case(rng)
    g, req, may = QGen(rng, consts, strs, minus=True).group(rng.choice([0, 0, 0, 1, 1, 2]))
    if rng.random() < .4:
        g["fs"] = []
    kind = rng.choice(["select"] * 6 + ["count", "ask", "construct", "construct"])
    pool = sorted(vars_of(g))
    if not pool:
        return case(rng)
    q = {"kind": kind, "vars": rng.sample(pool, min(len(pool), rng.choice([1, 2, 2, 3, 4]))), "g": g, "distinct": False, "limit": -1, "offset": 0, "order": 0, "desc": False, "tpl": []}
    pfx = rng.sample(PFX, rng.choice([0, 1, 2, 3]))
    pt = Printer(rng, pfx)
    head = "".join(f"{rng.choice(['PREFIX', 'prefix'])} {p}: <{ns}>{pt.ws()}" for p, ns in pfx)
    where = rng.choice([" WHERE ", " WHERE ", " where ", " "])
    if kind == "select":
        q["distinct"] = rng.random() < .5
        if q["distinct"] and rng.random() < .4:
            q["limit"] = rng.choice([-1, 0, 1, 2, 3])
            q["offset"] = rng.choice([0, 0, 1, 2])
        if rng.random() < .35:
            q["order"], q["desc"] = rng.randint(1, len(q["vars"])), rng.random() < .4
        v = pt.var(q["vars"][q["order"] - 1])
        t = "SELECT " + "DISTINCT " * q["distinct"] + " ".join(map(pt.var, q["vars"])) + where + pt.group(g)
        if q["order"]:
            t += " ORDER BY " + (f"DESC({v})" if q["desc"] else rng.choice([v, f"ASC({v})"]))
        t += f" LIMIT {q['limit']}" * (q["limit"] >= 0) + f" OFFSET {q['offset']}" * (q["offset"] > 0)
    elif kind == "count":
        q["vars"] = rng.sample(pool, min(2, len(pool)))
        if len(q["vars"]) < 2:
            q["vars"] *= 2
        t = f"SELECT {pt.var(q['vars'][0])} (COUNT(DISTINCT {pt.var(q['vars'][1])}) AS ?cnt)" + where + pt.group(g) + f" GROUP BY {pt.var(q['vars'][0])}"
    elif kind == "ask":
        t = rng.choice(["ASK ", "ASK", "ask "]) + rng.choice(["", "WHERE "]) .replace("WHERE", " WHERE") + pt.group(g)
    else:
        op = lambda ks: V(rng.choice(pool)) if rng.random() < .75 else K(rng.choice(ks))
        iris = [t for t in consts if t[0] == "iri"]
        q["tpl"] = [{"s": op(iris), "p": V(rng.choice(pool)) if rng.random() < .15 else K(iri(PNAMES[rng.choice(PREDS) - 1])), "o": op(consts)} for _ in range(rng.choice([1, 1, 2, 3]))]
        t = "CONSTRUCT { " + " ".join(f"{pt.op(x['s'])} {pt.op(x['p'])} {pt.op(x['o'])} ." for x in q["tpl"]) + " }" + rng.choice([" WHERE ", " where "]) + pt.group(g)
    return cs, q, head + t


def shown(cs, x, n):
    """the index of a term as tables show it (no prefixes are known)"""
    if x == "":
        return 0
    m = re.match(r'^"([^"]*)"(?:\^\^xsd:(\w+)|@(\w+))?$', x)
    t = bn(x[2:]) if x[:2] == "_:" else iri(x[1:-1]) if x[:1] == "<" and x[-1:] == ">" else lit(m[1], "" if m[3] else m[2] or "string", m[3] or "") if m else None
    if n == "cnt" and t and t[2] == "integer":
        return int(t[1])
    return cs.idx.get(t, -1)


def tables(cs, q, rows, text, box):
    """the rows in the other formats, as far as they are readable"""
    names = q["vars"] if q["kind"] == "select" else [q["vars"][0], "cnt"]
    if not rows:
        return ("" if text == box == "No results" else f"no rows, but {text!r} and {box!r}"), []
    got = []
    box = [l.split("│")[1:-1] for l in box.splitlines() if l.startswith("│")]
    if [x[0].strip() for x in box] != [""] + [str(i + 1) for i in range(len(box) - 1)]:
        return "rows are not numbered", []
    for rs in (list(csv.reader(io.StringIO(text))), [[x.strip() for x in l[1:]] for l in box]):
        if [x.lstrip("?") for x in rs[0]] != names:
            return f"header {rs[0]}", []
        got.append([[shown(cs, x, n) for x, n in zip(r, names)] for r in rs[1:]])
    return "", got


def enc_query(cs, q):
    def op(x):
        return {"k": "v", "v": x[1]} if x[0] == "v" else {"k": "c", "n": cs.n(x[1])}
    d = {k: q[k] for k in ("vars", "distinct", "limit", "offset", "order", "desc")}
    d["g"] = enc_q(cs, q)["g"]
    d["tpl"] = [{f: op(x[f]) for f in "spo"} for x in q["tpl"]]
    return d


def select_rows(cs, q, out):
    rows = []
    names = q["vars"] if q["kind"] == "select" else [q["vars"][0], "cnt"]
    for r in out["select"]["solutions"] if isinstance(out["select"], dict) else out["select"]:
        r = {k.lstrip("?$"): v for k, v in r.items()}
        if set(r) - set(names):
            return [], f"other variables {sorted(r)}"
        row = []
        for v in names:
            if v not in r:
                row.append(0)
                continue
            t = nt_term(r[v])
            if v == "cnt":
                if t[2] != "integer":
                    return [], "count " + r[v]
                row.append(int(t[1]))
            elif t not in cs.idx:
                return [], "unknown term " + r[v]
            else:
                row.append(cs.idx[t])
        rows.append(row)
    return rows, ""


def graph(out):
    return out["construct"] if "construct" in out else json.dumps(out.get("select"))     # (JSON-LD)


def triples(cs, text):
    rows = []
    for l in text.splitlines():
        if not l.strip():
            continue
        m = re.match(r'^(<[^>]*>|_:\S+) (<[^>]*>) (.*) \.$', l)
        if not m:
            return [], "not a triple: " + l
        ts = [nt_term(x) for x in m.groups()]
        if any(t not in cs.idx for t in ts):
            return [], "unknown term in " + l
        rows.append([cs.idx[t] for t in ts])
    return rows, ""


def observe(cs, q, ev, out, back):
    """fills in what a query answered; how the answer is not one, '' if it is"""
    ans = out[2]["ok"]
    if q["kind"] == "ask":
        if "ask" not in ans:
            return f"not an answer: {ans}"
        ev["answer"] = ans["ask"]
        return ""
    if q["kind"] == "construct":
        ev["rows"], f = triples(cs, back["out"][1]["ok"] if back else graph(ans))
        return f
    if "select" not in ans:
        return f"no rows: {ans}"
    ev["rows"], f = select_rows(cs, q, ans)
    if not f:
        f, ev["other"] = tables(cs, q, ev["rows"], out[3]["ok"], out[4]["ok"])
    return f


def q01(c):
    rng = c.rng
    cases, cmds = [], []
    while len(cases) < c.pick(5000, 50000):
        cs, q, text = case(rng)
        if len(text) > 3000:
            continue
        cs.arcs_enc = [list(a) for a in cs.arcs]
        data, q["format"] = cs.data_ttl(rng), rng.choice(GRAPHS)
        steps = [{"op": "load_data", "data": data, "format": "turtle"}, {"op": "load_query", "query": text, **({"type": q["kind"].replace("count", "select")} if rng.random() < .3 else {})},
                 {"op": "run_query", "format": q["format"]}]
        if q["kind"] in ("select", "count"):
            steps += [{"op": "serialize_query_results", "format": x} for x in ("csv", "internal")]
        cmds.append({"steps": steps})
        cases.append((cs, q))
    answers = list(run_harness("h_lib", cmds, timeout=20))
    # graphs in other formats are read again (G01 judges that)
    again = [i for i, (cs, q) in enumerate(cases) if q["kind"] == "construct" and q["format"] not in LINES and not failure(answers[i])]
    back = run_harness("h_lib", [{"steps": [{"op": "load_data", "data": graph(answers[i]["out"][2]["ok"]), "format": cases[i][1]["format"]}, {"op": "serialize_data", "format": "ntriples"}]}
                                 for i in again], timeout=20)
    read = dict(zip(again, back))
    evs = []
    for i, ((cs, q), a) in enumerate(zip(cases, answers)):
        f = failure(a) or (failure(read[i]) and f"not {q['format']}: " + failure(read[i]) if i in read else "")
        ev = {"op": q["kind"], "q": enc_query(cs, q), "A": cs.arcs_enc, "rows": [], "answer": False, "other": []}
        pn = [cs.n(iri(p)) for p in PNAMES]
        if not f:
            try:
                f = observe(cs, q, ev, a["out"], read.get(i))
            except (ValueError, KeyError, TypeError, IndexError, AttributeError) as x:
                f = f"unreadable: {x!r}"
        ev.update(fail=f, pnodes=pn, nodes=[enc(t) for t in cs.nodes])
        evs.append(ev)
    c.validate("answers", "QueryTrace", evs, replay=lambda i: cmds[i])
    c.model("MCQuery")
