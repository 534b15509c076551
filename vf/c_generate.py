"""N01: data generated from schemas."""
import hashlib, json, re
from .core import run_harness

NS = "http://e/"
XSD = "http://www.w3.org/2001/XMLSchema#"
DTS = ["string", "integer", "decimal", "boolean", "date", "dateTime", "anyURI"]
LINE = re.compile(r'^(<[^>]*>|_:\S+) (<[^>]*>) (<[^>]*>|_:\S+|"(?:[^"\\]|\\.)*"(?:\^\^<[^>]*>|@\S+)?) \.$')
VALUES = [f"<{NS}v1>", f"<{NS}v2>", "<urn:x:v3>", '"a"', '"b c"', f'"5"^^<{XSD}integer>', f'"1.5"^^<{XSD}decimal>', f'"true"^^<{XSD}boolean>', f'"2020-01-01"^^<{XSD}date>', f'"x"^^<{NS}dt>']
NAMES = ["name", "title", "description", "email", "phone", "url", "identifier", "p", "q", "r", "s"]


def card(rng, top):
    r = rng.random()
    if r < .3:
        return 1, 1
    if r < .42:
        return 0, 1
    if r < .52:
        return 0, -1
    if r < .62:
        return 1, -1
    lo = rng.randint(0, top)
    if r < .75:
        return lo, lo
    if r < .85:
        return lo, -1
    return lo, rng.randint(lo, min(top, lo + 4))


def facet(rng, k, x, hi):
    """a facet that leaves plenty of values"""
    if k != "lit" or rng.random() < .6:
        return []
    if x in ("integer", "decimal"):
        lo = rng.choice([-5000, -10, 0, 1, 5, 9990, 20000, 3000000000, -4000000000])
        if x == "decimal" and rng.random() < .3:
            lo += .5
        up = lo + rng.choice([40, 1000, 100000])
        return rng.choice([[("min", lo)], [("max", up)], [("min", lo), ("max", up)], [("minx", lo), ("maxx", up)], [("minx", lo)], [("maxx", up)]])
    if x == "string":
        return rng.choice([[("minlen", 2)], [("maxlen", 30)], [("minlen", 3), ("maxlen", 40)], [("pattern", rng.choice(["^[A-Z]{3}\\\\d{3}$", "^\\\\d{4}$", "[a-z]+@x", "^ab\\\\w\\\\w\\\\w$"]))]])
    return []


def schema(rng, shacl):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    ids = [NS + x for x in rng.sample(["S", "T", "Person", "Course", "U1", "V", "a/b", "W"], n)]
    shapes = []
    for i in ids:
        props = []
        names = rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4, 6]))
        for nm in names:
            for _ in range(2 if rng.random() < .07 and not shacl else 1):
                r = rng.random()
                k, x = ("lit", rng.choice(DTS)) if r < .62 else ("ref", rng.choice(ids)) if r < .88 else ("iri", "") if r < .95 else ("any", "")
                if k == "any" and rng.random() < .7:
                    k = rng.choice(["literal", "set", "set"])
                vs = rng.sample(VALUES, rng.choice([1, 2, 3, 5])) if k == "set" else []
                lo, hi = card(rng, 2 if x == "boolean" else max(1, min(len(vs), 6)) if k == "set" else 6)
                props.append({"p": NS + nm, "k": k, "x": x, "min": lo, "max": hi, "f": facet(rng, k, x, hi), "vs": [term(v) for v in vs], "vt": vs})
        shapes.append({"id": i, "props": props})
    return shapes


def val_c(p, iri):
    k = p["k"]
    b = {"lit": lambda: iri(XSD + p["x"]), "ref": lambda: "@" + iri(p["x"]), "iri": lambda: "IRI", "any": lambda: ".", "literal": lambda: "LITERAL",
         "set": lambda: "[" + " ".join(p["vt"]) + "]"}[k]()
    for f, v in p["f"]:
        b += {"min": f" MININCLUSIVE {v}", "max": f" MAXINCLUSIVE {v}", "minx": f" MINEXCLUSIVE {v}", "maxx": f" MAXEXCLUSIVE {v}",
              "minlen": f" MINLENGTH {v}", "maxlen": f" MAXLENGTH {v}", "pattern": " /" + str(v).replace("\\\\d", "[0-9]").replace("\\\\w", "[a-z]") + "/"}[f]
    c = (p["min"], p["max"])
    b += {(1, 1): "", (0, 1): "?", (0, -1): "*", (1, -1): "+"}.get(c) if c in ((1, 1), (0, 1), (0, -1), (1, -1)) else \
        f" {{{c[0]}}}" if c[0] == c[1] else f" {{{c[0]},}}" if c[1] == -1 else f" {{{c[0]},{c[1]}}}"
    return b


def shexc(rng, shapes):
    o = ""
    al = {}
    if rng.random() < .7:
        al = {rng.choice(["", "e"]): NS, "xsd": XSD}
        o += "".join(f"PREFIX {a}: <{n}>\n" for a, n in al.items())

    def iri(x):
        for a, n in al.items():
            if x.startswith(n) and re.fullmatch(r"[A-Za-z0-9]+", x[len(n):]) and rng.random() < .8:
                return a + ":" + x[len(n):]
        return "<" + x + ">"
    for s in shapes:
        ts = [iri(p["p"]) + " " + val_c(p, iri) for p in s["props"]]
        if len(ts) > 2 and rng.random() < .3:
            k = rng.randrange(1, len(ts))
            ts = ts[:k] + ["(" + " ; ".join(ts[k:]) + ")"]
        o += iri(s["id"]) + rng.choice([" ", " ", " CLOSED "]) + "{ " + " ; ".join(ts) + " }\n"
    return o


def shacl(rng, shapes):
    o = f"@prefix sh: <http://www.w3.org/ns/shacl#> .\n@prefix xsd: <{XSD}> .\n@prefix e: <{NS}> .\n"
    n = 0
    for s in shapes:
        ps, extra = [], ""
        for p in s["props"]:
            b = [f"sh:path <{p['p']}>"]
            if p["k"] == "lit":
                b.append(f"sh:datatype xsd:{p['x']}")
            elif p["k"] == "ref":
                b.append(f"sh:node <{p['x']}>")
            elif p["k"] == "iri":
                b.append("sh:nodeKind sh:IRI")
            elif p["k"] == "literal":
                b.append("sh:nodeKind sh:Literal")
            elif p["k"] == "set":
                b.append("sh:in ( " + " ".join(p["vt"]) + " )")
            if p["min"] > 0 or rng.random() < .5:
                b.append(f"sh:minCount {p['min']}")
            if p["max"] != -1:
                b.append(f"sh:maxCount {p['max']}")
            for f, v in p["f"]:
                b.append({"min": "sh:minInclusive", "max": "sh:maxInclusive", "minx": "sh:minExclusive", "maxx": "sh:maxExclusive", "minlen": "sh:minLength",
                          "maxlen": "sh:maxLength", "pattern": "sh:pattern"}[f] + " " + (f'"{v}"' if f == "pattern" else str(v)))
            rng.shuffle(b)
            if rng.random() < .7:
                ps.append("[ " + " ; ".join(b) + " ]")
            else:
                n += 1
                ps.append(f"e:prop{n}")
                extra += f"e:prop{n} a sh:PropertyShape ; " + " ; ".join(b) + " .\n"
        o += f"<{s['id']}> a sh:NodeShape" + (f" ; sh:targetClass e:C{n}" if rng.random() < .5 else "") + "".join(" ; sh:property " + x for x in ps) + " .\n" + extra
    return o


def toml(d):
    def v(x):
        if isinstance(x, bool):
            return "true" if x else "false"
        if isinstance(x, dict):
            return "{ " + ", ".join(f'"{k}" = {v(y)}' for k, y in x.items()) + " }"
        if isinstance(x, list):
            return "[" + ", ".join(v(y) for y in x) + "]"
        return json.dumps(x) if isinstance(x, str) else repr(x)
    return "".join(f"[{t}]\n" + "".join(f"{k} = {v(x)}\n" for k, x in b.items()) for t, b in d.items())


def config(rng, shapes):
    """(configuration file as a table, what the specification needs to know of it)"""
    count = rng.choice([1, 2, 3, 5, 7, 8, 12]) if rng.random() < .95 else rng.choice([99, 100, 101, 130])
    ids = [s["id"] for s in shapes]
    g = {"entity_count": count}
    cfg = {"count": count, "dist": "equal", "w": [1] * len(ids), "nomin": False, "excluded": [], "maxprops": 0, "over": [[] for _ in ids]}
    r = rng.random()
    if r < .2:
        w = [rng.choice([1, 2, 3, 5, 7, 10]) for _ in ids]
        given = [True] * len(ids)
        for i in range(len(ids)):
            if rng.random() < .15 and len(ids) > 1:
                given[i], w[i] = False, 10     # a shape without a weight weighs 1
        if any(given):
            g["entity_distribution"] = {"Weighted": {i: x / 10 for i, x, y in zip(ids, w, given) if y}}
            cfg["dist"], cfg["w"] = "weighted", w
    elif r < .35:
        w = [rng.choice([0, 1, 2, 3, 6]) for _ in ids]
        given = [x > 0 or rng.random() < .5 for x in w]
        g["entity_distribution"] = {"Custom": {i: x for i, x, y in zip(ids, w, given) if y}}
        cfg["dist"], cfg["w"] = "custom", w
    elif r < .45:
        g["entity_distribution"] = "Equal"
    if rng.random() < .75:
        g["cardinality_strategy"] = rng.choice(["Minimum", "Maximum", "Random", "Balanced"])
    if rng.random() < .2:
        g["property_fill_probability"] = rng.choice([0.0, .3, .7, 1.0])
    if rng.random() < .1:
        g["property_count_variance"] = .5
    if rng.random() < .1:
        g["ignore_min_cardinality"] = cfg["nomin"] = True
    if rng.random() < .1:
        cfg["maxprops"] = g["max_properties_per_instance"] = rng.choice([1, 2, 3])
    if rng.random() < .2:
        g["property_selection_strategy"] = rng.choice(["All", "Random", "Weighted"])
    if rng.random() < .15:
        cfg["excluded"] = g["excluded_properties"] = rng.sample([NS + x for x in NAMES], 2)
    if rng.random() < .25:
        g["type_overrides"] = {}
        for n, i in enumerate(ids):
            if rng.random() < .6:
                continue
            t, o = {}, {k: cfg[k] for k in ("nomin", "excluded", "maxprops")}
            if rng.random() < .4:
                t["ignore_min_cardinality"] = o["nomin"] = rng.random() < .5
            if rng.random() < .3:
                t["max_properties_per_instance"] = o["maxprops"] = rng.choice([0, 1, 2, 3])
            if rng.random() < .5:
                t["excluded_properties"] = o["excluded"] = rng.sample([NS + x for x in NAMES], rng.choice([0, 2, 4]))
            if rng.random() < .3:
                t["property_fill_probability"] = rng.choice([0.0, .5, 1.0])
            if rng.random() < .2:
                t["property_selection_strategy"] = rng.choice(["All", "Random", "Weighted"])
            if rng.random() < .2:
                t["property_count_variance"] = .5
            g["type_overrides"][i] = t
            cfg["over"][n] = [o]
    d = {"generation": g}
    if rng.random() < .2:
        d["parallel"] = {"batch_size": rng.choice([1, 2, 100]), "worker_threads": rng.choice([1, 3, 8]), "parallel_shapes": rng.random() < .5, "parallel_fields": rng.random() < .5}
    if rng.random() < .2:
        d["output"] = {"parallel_writing": True, "parallel_file_count": rng.choice([0, 1, 2, 3])}
    return d, cfg


def cps(s):
    return [ord(c) for c in s]


UNESC = {"t": "\t", "n": "\n", "r": "\r", '"': '"', "\\": "\\", "b": "\b", "f": "\f", "'": "'"}


def unescape(s):
    return re.sub(r"\\(u([0-9A-Fa-f]{4})|U([0-9A-Fa-f]{8})|(.))", lambda m: chr(int(m[2] or m[3], 16)) if m[2] or m[3] else UNESC.get(m[4], m[4]), s)


def term(x):
    if x[0] == "<":
        return {"t": "iri", "s": [], "dt": "", "lang": [], "i": x[1:-1]}
    if x[0] == "_":
        return {"t": "bnode", "s": [], "dt": "", "lang": [], "i": x}
    m = re.fullmatch(r'"((?:[^"\\]|\\.)*)"(?:\^\^<([^>]*)>|@(\S+))?', x)
    dt = m[2] or (XSD + "string" if not m[3] else "langString")
    return {"t": "lit", "s": cps(unescape(m[1])), "dt": dt[len(XSD):] if dt.startswith(XSD) else dt, "lang": cps(m[3] or ""), "i": ""}


def triples(text):
    out = set()
    for l in text.splitlines():
        if not l.strip():
            continue
        m = LINE.match(l.strip())
        if not m:
            return None
        out.add(m.groups())
    return sorted(out)


def subjects(ts):
    out = {}
    for s, p, o in ts:
        out.setdefault(s.strip("<>"), {}).setdefault(p[1:-1], []).append(term(o))
    return [{"id": s, "arcs": [{"p": p, "os": os} for p, os in ps.items()]} for s, ps in out.items()]


def n01(c):
    rng = c.rng
    cmds, evs, own = [], [], []
    for e in range(c.pick(2000, 20000)):
        use_shacl = rng.random() < .35
        legacy = not use_shacl and rng.random() < .2
        shapes = schema(rng, use_shacl)
        text = shacl(rng, shapes) if use_shacl else shexc(rng, shapes)
        d, cfg = config(rng, shapes)
        plain = rng.random() < .2
        if plain:       # no configuration file at all
            cfg.update(dist="equal", nomin=False, excluded=[], maxprops=0, over=[[] for _ in shapes])
            d = {"generation": {}}
        seed = rng.choice([0, 1, 42, 2**40 + 1, 2**63 - 1]) if rng.random() < .85 else None
        for k in range(rng.choice([2, 3]) if seed is not None else 1):
            st = {"op": "generate", "schema": text, "name": "s.ttl" if use_shacl else "s.shex", "threads": rng.choice([0, 1, 2, 4, 8]),
                  "schema_format": rng.choice(["shacl" if use_shacl else "shex", "auto"]), "format": rng.choice(["ntriples", "ntriples", "turtle"]), "legacy": legacy}
            conf = json.loads(json.dumps(d))
            if plain or rng.random() < .5:      # the builder's settings take precedence over the file's
                st["count"] = cfg["count"]
                if not plain and rng.random() < .5:
                    conf["generation"]["entity_count"] = 77
            if seed is not None:
                if plain or rng.random() < .5:
                    st["seed"] = seed
                else:
                    conf["generation"]["seed"] = seed
            if rng.random() < .4:
                st["parallel"] = rng.choice([1, 2, 8])
            if not plain:
                st["config_format"] = rng.choice(["toml", "json"])
                st["config"] = toml(conf) if st["config_format"] == "toml" else json.dumps(conf)
            cmds.append({"op": "script", "steps": [st]})
            own.append(e)
        for s in shapes:
            for p in s["props"]:
                p["f"] = [{"k": k, "num": cps(str(v))} for k, v in p["f"] if k in ("min", "max", "minx", "maxx")]
                del p["vt"]
        evs.append({"shapes": shapes, "cfg": cfg, "seeded": seed is not None, "runs": [], "subjects": None})
    first = {}
    for i, e in enumerate(own):
        first.setdefault(e, i)
    # runs of one configuration are spread over processes
    order = list(range(len(cmds)))
    rng.shuffle(order)
    res = dict(zip(order, run_harness("h_lib", [cmds[i] for i in order])))
    for i, e in enumerate(own):
        out = (res[i].get("out") or [{}])[0]
        ts = triples(out["ok"]) if "ok" in out else []
        fail = "" if "ok" in out and ts is not None else "unreadable output" if "ok" in out else "error: " + out["err"][:200] if "err" in out else "panic or lost"
        evs[e]["runs"].append({"fail": fail, "digest": hashlib.sha1(repr(ts).encode()).hexdigest()})
        if evs[e]["subjects"] is None:
            evs[e]["subjects"] = subjects(ts or [])
    c.cov["generations"] = len(cmds)
    c.cov["subjects"] = sum(len(e["subjects"]) for e in evs)
    c.validate("generated data", "GenerateTrace", evs, replay=lambda i: [cmds[k] for k in range(len(cmds)) if own[k] == i])
    c.model("MCGenerate")
