"""M01: Map semantic actions, map states and materialized graphs."""
import json, re
from .core import run_harness
from .shexgen import *
from .c_shex import verdicts, failure, smap, was_refused

HEAD = f"PREFIX : <{E}>\nPREFIX Map: <http://shex.io/extensions/Map/>\n"
LINE = re.compile(r'^(<[^>]*>|_:\S+) (<[^>]*>) (<[^>]*>|_:\S+|"(?:[^"\\]|\\.)*"(?:\^\^<[^>]*>|@\S+)?) \.$')
PN = {pred(i): i for i in range(1, 7)}
UN = {"n": "\n", "r": "\r", "t": "\t"}
POOL = [iri(E + "n1"), iri(E + "n2"), iri("urn:x:y"), lit("1", "integer"), lit("01", "integer"), lit("1.50", "decimal"), lit("true", "boolean"), lit("a"),
        lit(""), lit('q"\\ \n'), lit("b", "", "en"), lit("b", "", "en-GB"), lit("é"), lit("x", "integer"), lit("2020-01-01", "date"), lit("7", "http://e/dt"), lit("1e3", "double")]


def term(s):
    if s[0] == "<":
        return iri(s[1:-1])
    if s[0] == "_":
        return bn(s[2:])
    m = re.match(r'^"((?:[^"\\]|\\.)*)"(?:\^\^<([^>]*)>|@(\S+))?$', s, re.S)
    v = re.sub(r"\\(u[0-9A-Fa-f]{4}|.)", lambda x: chr(int(x[1][1:], 16)) if len(x[1]) > 1 else UN.get(x[1], x[1]), m[1])
    dt = m[2] or XSD + "string"
    return lit(v, dt[len(XSD):] if dt.startswith(XSD) else dt, m[3] or "")


def triples(text):
    out = []
    for l in text.splitlines():
        m = LINE.match(l)
        if not m:
            return [], "not a triple: " + l
        if m[2] not in PN:
            return [], "predicate " + m[2]
        out.append([enc(term(m[1])), PN[m[2]], enc(term(m[3]))])
    return out, ""


def node_of(j):
    """a value of a map state file"""
    (k, v), = j.items()
    if k == "Iri":
        return iri(v if isinstance(v, str) else list(v.values())[0])
    if k != "Literal":
        return None
    (k, v), = v.items()
    if k == "StringLiteral":
        return lit(v["lexical_form"], "", v["lang"]) if v.get("lang") else lit(v["lexical_form"])
    if k == "BooleanLiteral":
        return lit(str(v).lower(), "boolean")
    if k in ("DatatypeLiteral", "WrongDatatypeLiteral"):
        dt = v["datatype"]
        dt = dt if isinstance(dt, str) else list(dt.values())[0]
        return lit(v["lexical_form"], dt[len(XSD):] if dt.startswith(XSD) else dt)
    return None


def nesting(text):
    """levels of brackets: the schema parser takes exponential time in them"""
    t = re.sub(r"%[^{]*\{[^}]*%\}|\{\d[^}]*\}", "", text)
    d = top = 0
    for ch in t:
        d += (ch in "({") - (ch in ")}")
        top = max(top, d)
    return top


def add_acts(rng, e, keys, p=.5):
    if e["k"] in ("and", "or"):
        for x in e["es"]:
            add_acts(rng, x, keys, p)
    elif e["k"] == "not":
        add_acts(rng, e["e"], keys, p)
    elif e["k"] == "shape":
        for t in e["tcs"]:
            if t["ve"]["k"] == "shape" and t["ve"]["te"]["k"] == "empty":   # { } may be read as .
                t["ve"] = ANY
            t["acts"] = rng.sample(range(1, keys + 1), rng.choice([1, 1, 1, 2])) if rng.random() < p else []
            t["actform"] = [rng.randint(0, 3) for _ in t["acts"]]
            add_acts(rng, t["ve"], keys, p)


def bind(c):
    rng = c.rng
    cmds, evs, cases = [], [], []
    for _ in range(c.pick(4000, 30000)):
        nodes = rng.sample(POOL[:3], rng.choice([2, 3])) + rng.sample(POOL[3:], rng.choice([2, 3]))
        gen = Gen(rng, labels=rng.choice([1, 2, 3]), preds=rng.choice([2, 3, 4]), nodes=nodes, refs=rng.random() < .6, logic=rng.random() < .4,
                  inv=rng.choice([0, 0, .15]), extra=.4, closed=.15, nots=False)
        sch = gen.schema(rng.choice([0, 1, 2]))
        for d in sch:
            add_acts(rng, d["e"], 5)
        if nesting(shexc(sch)) > 5:
            continue
        g = gen.gen_graph(rng.choice([3, 5, 6]))
        allp = [(n + 1, i + 1) for n, t in enumerate(nodes) if t[0] == "iri" for i in range(len(sch))]
        pairs = rng.sample(allp, rng.choice([1, 1, 2, len(allp)]) if len(allp) > 1 else 1)
        cmds.append({"steps": [{"op": "load_data", "data": g.turtle(rng), "format": "turtle"}, {"op": "load_shex", "schema": HEAD + shexc(sch, rng)},
                               {"op": "load_shapemap", "shapemap": smap(pairs, nodes)}, {"op": "validate_shex"}, {"op": "map_state"}]})
        cases.append((sch, g, pairs))
    used = []
    for (sch, g, pairs), a, cmd in zip(cases, run_harness("h_lib", cmds, timeout=20), cmds):
        if was_refused(a):
            continue
        f, obs, state = failure(a), [], []
        if not f:
            obs, f = verdicts(a["out"][3]["ok"], g.nodes, len(sch))
            for k, v in json.loads(a["out"][4]["ok"]).items():
                n = node_of(v)
                m = re.match(r"^http://e/k(\d+)$", k)
                if not m or n not in g.nodes:
                    f = f or f"unexpected binding {k} {v}"
                else:
                    state.append([int(m[1]), g.nodes.index(n) + 1])
            if not f and sorted(map(tuple, pairs)) != sorted((o[0], o[1]) for o in obs):
                f = "rows of other pairs"
        used.append(cmd)
        evs.append({"op": "bind", "sch": enc_schema(sch), "g": g.enc(), "obs": obs, "state": state, "fail": f})
    c.validate("bindings", "MapStateTrace", evs, replay=lambda i: used[i])


def build(c):
    rng = c.rng
    cmds, evs, cases = [], [], []
    for _ in range(c.pick(5000, 40000)):
        keys = rng.choice([1, 2, 4, 6])
        state = {k: rng.choice(POOL) for k in range(1, keys + 1) if rng.random() < .85}
        src = HEAD + ":Src { " + " ; ".join(f":v{k} . %Map:{{ :k{k} %}}" for k in state) + " }"
        data = f"<{E}x> <{E}other> 1 .\n" + "".join(f"<{E}x> <{E}v{k}> {ttl(t)} .\n" for k, t in state.items())
        gen = Gen(rng, labels=rng.choice([1, 2, 3, 4]), preds=rng.choice([2, 3, 5]), nodes=POOL[:5], refs=rng.random() < .7, logic=rng.random() < .15, inv=0,
                  maxtc=rng.choice([2, 4, 6]))
        sch = gen.schema(rng.choice([0, 1, 2]))
        if rng.random() < .7:
            for i, d in enumerate(sch):
                forward(rng, d["e"], i + 1, len(sch))
        for d in sch:
            add_acts(rng, d["e"], 6, .8)
        if nesting(shexc(sch)) > 5:
            continue
        start = rng.choice([None, {"k": "ref", "i": rng.randint(1, len(sch))}])
        root = rng.choice([None, E + "root", E + "n1"])
        file = rng.random() < .5
        steps = [{"op": "load_data", "data": data, "format": "turtle"}, {"op": "load_shex", "schema": src}, {"op": "load_shapemap", "shapemap": f"<{E}x>@<{E}Src>"},
                 {"op": "validate_shex"}, {"op": "save_map_state"}, {"op": "load_shex", "schema": HEAD + shexc(sch, None, start)}, {"op": "load_saved_map_state"},
                 {"op": "materialize", **({"node": root} if root else {})}]
        cmds.append({"steps": steps})
        cases.append((sch, state, start, root))
    used = []
    for (sch, state, start, root), a, cmd in zip(cases, run_harness("h_lib", cmds, timeout=20), cmds):
        if was_refused(a):
            continue
        refused = "out" in a and "err" in a["out"][7]
        f, out = failure(a, 7 if refused else None), []
        if not f and not refused:
            out, f = triples(a["out"][7]["ok"])
        used.append(cmd)
        evs.append({"op": "build", "sch": enc_schema(sch), "state": [[k, enc(t)] for k, t in state.items()], "start": start or {"k": "ref", "i": 1},
                    "root": [enc(iri(root))] if root else [], "out": out, "refused": refused, "fail": f})
    c.validate("materialized graphs", "MapStateTrace", evs, replay=lambda i: used[i])


def forward(rng, e, i, n):
    """references only to later shapes: not recursive"""
    if e["k"] in ("and", "or"):
        for x in e["es"]:
            forward(rng, x, i, n)
    elif e["k"] == "ref":
        if i < n:
            e["i"] = rng.randint(i + 1, n)
        else:
            e.clear()
            e.update(nc(kind="iri"))
    elif e["k"] == "shape":
        for t in e["tcs"]:
            if t["ve"]["k"] == "ref" and i == n:
                t["ve"] = nc(kind="iri")
            else:
                forward(rng, t["ve"], i, n)


def m01(c):
    c.model("MCMapState")
    bind(c)
    build(c)
