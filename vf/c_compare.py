"""C02: comparison of shapes."""
import json, re
from .core import run_harness

NS = "http://e/"
XSD = "http://www.w3.org/2001/XMLSchema#"
PREDS = [NS + x for x in ("p", "q", "r", "s", "t", "pp", "p/q", "P")] + ["urn:x:p", "http://f/p", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"]
DTS = [XSD + x for x in ("integer", "string", "date", "boolean")] + [NS + "dt"]
KINDS = {"IRI": "IRI", "BNODE": "BNode", "LITERAL": "Literal", "NONLITERAL": "NonLiteral"}
JK = {"IRI": "iri", "BNODE": "bnode", "LITERAL": "literal", "NONLITERAL": "nonliteral"}


class Doc:
    """One schema document: shapes (label, tree) and how to write them."""

    def __init__(self, rng):
        self.rng = rng
        self.aliases = {}
        if rng.random() < .6:
            self.aliases = {rng.choice(["", "e", "ex"]): NS, rng.choice(["x", "xsd"]): XSD}
            if rng.random() < .3:
                self.aliases["o"] = rng.choice(["http://f/", "urn:x:"])
        self.base = NS if rng.random() < .3 else None
        self.fmt = rng.choice(["shexc", "shexc", "shexc", "shexj"])
        self.shapes = []
        self.n = 0

    def iri(self, i):
        r = self.rng.random()
        if i.endswith("#type") and r < .3:
            return "a"
        if r < .6:
            for a, n in self.aliases.items():
                if i.startswith(n) and re.fullmatch(r"[A-Za-z]*", i[len(n):]):
                    return a + ":" + i[len(n):]
        if self.base and i.startswith(NS) and r < .8:
            return "<" + i[len(NS):] + ">"
        return "<" + i + ">"

    def head(self):
        o = ""
        if self.base:
            o += f"BASE <{self.base}>\n"
        for a, n in self.aliases.items():
            o += f"PREFIX {a}: <{n}>\n"
        return o


def value(rng, labels):
    r = rng.random()
    if r < .25:
        return {"k": "any", "x": ""}
    if r < .55:
        return {"k": "datatype", "x": rng.choice(DTS)}
    if r < .75:
        return {"k": "nodekind", "x": rng.choice(list(KINDS))}
    if r < .975:
        return {"k": "ref", "x": rng.choice(labels)}
    return {"k": "other", "x": rng.choice(["set", "inline", "facet", "and", "not"])}


CARDS = [None, None, None, (0, 1), (0, -1), (1, -1), (2, 3), (2, 2), (0, 0)]


def leaf(rng, labels, pool):
    return {"t": "tc", "p": rng.choice(pool), "v": value(rng, labels), "card": rng.choice(CARDS), "inv": rng.random() < .08}


def tree(rng, labels, pool):
    r = rng.random()
    n = rng.choice([0, 1, 1, 2, 3, 4, 6, 9])
    if n == 0:
        return None
    ls = [leaf(rng, labels, pool) for _ in range(n)]
    if rng.random() < .75:      # mostly every property once
        seen, out = set(), []
        for l in ls:
            if l["p"] not in seen:
                seen.add(l["p"]); out.append(l)
        ls = out
    if n >= 3 and r < .08 and len(ls) >= 2:
        k = rng.randrange(1, len(ls))
        sub = {"t": rng.choice(["and", "or"]), "es": ls[k:], "card": rng.choice(CARDS)} if len(ls) - k > 1 else ls[k]
        return {"t": rng.choice(["and", "or"]), "es": ls[:k] + [sub], "card": None}
    if len(ls) == 1:
        return ls[0]
    return {"t": "and", "es": ls, "card": None}


def leaves(t):
    if t is None:
        return []
    return [t] if t["t"] == "tc" else [l for e in t["es"] for l in leaves(e)]


def plain(t):
    """Forms that the comparison documents: one constraint or a flat conjunction of simple ones."""
    if t is None:
        return True
    ls = [t] if t["t"] == "tc" else t["es"] if t["t"] == "and" and all(e["t"] == "tc" for e in t["es"]) else None
    return ls is not None and all(l["v"]["k"] != "other" for l in ls)


def card_c(c):
    return "" if c is None else {(0, 1): "?", (0, -1): "*", (1, -1): "+"}.get(c) or (f"{{{c[0]}}}" if c[0] == c[1] else f"{{{c[0]},{c[1]}}}")


def val_c(d, v):
    k, x = v["k"], v["x"]
    if k == "any":
        return "."
    if k == "datatype":
        return d.iri(x) if d.iri(x) != "a" else "<" + x + ">"
    if k == "nodekind":
        return x
    if k == "ref":
        return "@" + (x if x.startswith("_:") else d.iri(x))
    return {"set": "[1 2]", "inline": "{ <http://e/in> . }", "facet": "MINLENGTH 2", "and": "IRI AND LITERAL", "not": "NOT IRI"}[x]


def te_c(d, t):
    if t["t"] == "tc":
        return ("^" if t["inv"] else "") + d.iri(t["p"]) + " " + val_c(d, t["v"]) + card_c(t["card"])
    sep = " ; " if t["t"] == "and" else " | "
    return "(" + sep.join(te_c(d, e) for e in t["es"]) + ")" + card_c(t["card"])


def sh_c(d, s):
    pre = d.rng.choice(["", "", "CLOSED ", "EXTRA <http://e/p> "])
    t = s["t"]
    body = "" if t is None else te_c(d, t) if t["t"] == "tc" else (" ; " if t["t"] == "and" else " | ").join(te_c(d, e) for e in t["es"])
    if t is not None and t["t"] == "and" and d.rng.random() < .3:
        body += " ;"
    return pre + "{ " + body + " }"


def card_j(c):
    return {} if c is None else {"min": c[0], "max": c[1]}


def val_j(v):
    k, x = v["k"], v["x"]
    if k == "any":
        return {}
    nc = {"type": "NodeConstraint"}
    return {"valueExpr": {"datatype": lambda: {**nc, "datatype": x}, "nodekind": lambda: {**nc, "nodeKind": JK[x]}, "ref": lambda: x,
            "other": lambda: {"set": {**nc, "values": ["http://e/v"]}, "inline": {"type": "Shape", "expression": {"type": "TripleConstraint", "predicate": "http://e/in"}},
                              "facet": {**nc, "minlength": 2}, "and": {"type": "ShapeAnd", "shapeExprs": [{**nc, "nodeKind": "iri"}, {**nc, "nodeKind": "literal"}]},
                              "not": {"type": "ShapeNot", "shapeExpr": {**nc, "nodeKind": "iri"}}}.get(x)}[k]()}


def te_j(t):
    if t["t"] == "tc":
        return {"type": "TripleConstraint", **({"inverse": True} if t["inv"] else {}), "predicate": t["p"], **val_j(t["v"]), **card_j(t["card"])}
    return {"type": "EachOf" if t["t"] == "and" else "OneOf", "expressions": [te_j(e) for e in t["es"]], **card_j(t["card"])}


def write(d):
    if d.fmt == "shexj":
        return json.dumps({"@context": "http://www.w3.org/ns/shex.jsonld", "type": "Schema",
                           **({"start": {"type": "Shape", **({"expression": te_j(d.start)} if d.start else {})}} if d.has_start else {}),
                           "shapes": [{"type": "ShapeDecl", "id": s["l"], "shapeExpr": {"type": "Shape", **({"expression": te_j(s["t"])} if s["t"] else {})}} for s in d.shapes]})
    o = d.head()
    if d.has_start:
        o += "start = " + sh_c(d, {"t": d.start}) + "\n"
    for s in d.shapes:
        o += (s["l"] if s["l"].startswith("_:") else d.iri(s["l"]).replace("a", "a")) + " " + sh_c(d, s) + "\n"
    return o


def doc(rng, labels, pool):
    d = Doc(rng)
    for l in labels:
        d.shapes.append({"l": l, "t": tree(rng, labels, pool)})
    d.has_start = rng.random() < .2
    d.start = tree(rng, labels, pool) if d.has_start else None
    return d, write(d)


def shape_v(t):
    out = []
    for l in leaves(t):
        v = dict(l["v"])
        if v["k"] == "nodekind":
            v["x"] = KINDS[v["x"]]
        out.append({"p": l["p"], "v": v})
    return out


def pairs(text):
    return json.loads(text, object_pairs_hook=lambda ps: ps)


def description(d):
    d = dict(d)
    vc = d.get("value_constraint")
    if vc is None:
        return {"k": "any", "x": ""}
    if isinstance(vc, list) and len(vc) == 1:
        k, x = vc[0]
        return {"k": {"Datatype": "datatype", "NodeKind": "nodekind", "Ref": "ref"}.get(k, k), "x": str(x)}
    return {"k": str(vc), "x": ""}


def answer(r, fmt):
    bad = {"eq": [], "p1": [], "p2": [], "descr": False}
    if "ok" not in r:
        return {"fail": "error" if "err" in r else "panic or lost", **bad}
    out = {"fail": "", "eq": [], "p1": [], "p2": [], "descr": fmt == "json"}
    if fmt == "json":
        top = pairs(r["ok"])
        if sorted(k for k, _ in top) != ["equal_properties", "properties1", "properties2"]:
            return {"fail": "unreadable", **bad}
        for k, rows in top:
            for p, v in rows:
                v = dict(v)
                if k == "equal_properties":
                    out["eq"].append({"p": p, "d1": description(v["description1"]), "d2": description(v["description2"])})
                else:
                    out["p" + k[-1]].append({"p": p, "d1": description(v["description"]), "d2": {"k": "any", "x": ""}})
        return out
    cur = None
    for line in r["ok"].splitlines():
        if line.startswith(" Equal"):
            cur = "eq"
        elif line.startswith(" Properties in shape 1"):
            cur = "p1"
        elif line.startswith(" Properties in shape 2"):
            cur = "p2"
        else:
            for p in PREDS:
                if line.startswith(f"  - {p}: "):
                    out[cur].append({"p": p, "d1": {"k": "any", "x": ""}, "d2": {"k": "any", "x": ""}})
    return out


def c02(c):
    rng = c.rng
    cmds, evs = [], []
    for _ in range(c.pick(2500, 25000)):
        labels = [NS + "S", NS + "T", rng.choice(["_:b", NS + "s", "urn:x:S", NS + "S1"])]
        pool = rng.sample(PREDS, rng.choice([3, 5, 8, len(PREDS)]))
        docs = [doc(rng, labels, pool) for _ in range(2)]
        if rng.random() < .25:     # the same shapes, written differently
            e = Doc(rng)
            e.shapes, e.has_start, e.start = docs[0][0].shapes, docs[0][0].has_start, docs[0][0].start
            docs[1] = (e, write(e))
        shapes, where = [], []
        for k, (d, _) in enumerate(docs):
            for s in d.shapes:
                shapes.append(s["t"]); where.append((k, s["l"]))
            if d.has_start:
                shapes.append(d.start); where.append((k, "START"))
        n = len(shapes)
        ask = []
        for _ in range(rng.choice([2, 3, 4])):
            a, b = rng.randrange(n), rng.randrange(n)
            ask.append((a, b))
            if rng.random() < .7:
                ask.append((b, a))
        a = rng.randrange(n)
        ask.append((a, a))
        rng.shuffle(ask)
        steps, fmts = [], []
        for a, b in ask:
            f = rng.choice(["json", "json", "internal"])
            fmts.append(f)
            (ka, la), (kb, lb) = where[a], where[b]
            steps.append({"op": "compare", "schema1": docs[ka][1], "schema2": docs[kb][1], "format1": docs[ka][0].fmt, "format2": docs[kb][0].fmt,
                          "mode1": "shex", "mode2": "shex", "shape1": la, "shape2": lb, "result_format": f})
        cmds.append({"op": "script", "steps": steps})
        evs.append({"shapes": [shape_v(t) for t in shapes], "plain": [plain(t) for t in shapes], "ask": ask, "fmts": fmts})
    res = run_harness("h_lib", cmds)
    for e, r in zip(evs, res):
        out = r.get("out") or []
        e["answers"] = [{"a": a + 1, "b": b + 1, **answer(out[i] if i < len(out) else {}, e["fmts"][i])} for i, (a, b) in enumerate(e["ask"])]
        del e["ask"], e["fmts"]
    c.cov["comparisons"] = sum(len(e["answers"]) for e in evs)
    c.cov["refused"] = sum(x["fail"] == "error" for e in evs for x in e["answers"])
    c.validate("comparisons", "CompareTrace", evs, replay=lambda i: cmds[i])
    c.model("MCCompare")
