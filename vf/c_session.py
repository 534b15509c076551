"""L01, L02, L03: sessions of the Rudof facade against Session.tla."""
import copy, hashlib, itertools, json, re
from .core import run_harness, Check

A = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
SHNS = "http://www.w3.org/ns/shacl#"
NSS = ["http://a.example/", "http://b.example/x#", "urn:c:", "http://d.example/id_"]
ALIASES = ["ex", "p2", "", "é-1.b"]
NODES, PREDS, LABELS, LITS = ["n1", "n2", "n3"], ["p", "q"], ["S", "T"], ['"x', '"y z', "#1", "#2"]
SNAPNODES = ["<http://a.example/n1>", "<http://b.example/x#n2>"]
MAP = "http://shex.io/extensions/Map/"


# ------------------------------------------------------------------ names and their rendering
def nm(alias, local):
    return [alias, local]


def iri(x):
    return ["<", x]


def term(n):
    """a name written in Turtle, ShExC, SPARQL and shape maps"""
    if n[0] == "<":
        return "<%s>" % n[1]
    if n[0] == "=":
        if n[1][0] == "#":
            return n[1][1:]
        x = n[1][1:].replace("\\", "\\\\").replace('"', '\\"')
        return '"""%s"""' % x if "\n" in x else '"%s"' % x
    if n[0] == "?":
        return n[1]
    return n[0] + ":" + n[1]


class Gen:
    def __init__(self, rng, profile):
        self.rng, self.profile = rng, profile
        self.docs, self.text = [], []
        self.shapeno = 0

    def name(self, pool, full=False):
        r = self.rng
        loc = r.choice(pool)
        if full or r.random() < .35:
            return iri(r.choice(NSS[:2] if r.random() < .95 else NSS) + loc)
        return nm(r.choice(ALIASES[:2] if r.random() < .7 else ALIASES), loc)

    def ns(self, a):
        """most aliases keep to one namespace, so that most prefix maps are injective"""
        return NSS[ALIASES.index(a)] if self.rng.random() < (.6 if self.profile == "L03" else .93) else self.rng.choice(NSS)

    def add(self, d, t):
        d["id"] = len(self.docs) + 1
        self.docs.append(d)
        self.text.append(t)
        return d["id"]

    def decls(self, n=None):
        r = self.rng
        n = r.choice([0, 1, 1, 2, 3]) if n is None else n
        return [["@", a, self.ns(a)] for a in r.choices(ALIASES, k=n)]

    def use(self, names, decls):
        """mostly, declare what is used"""
        r = self.rng
        have = {d[1] for d in decls}
        for n in names:
            if n[0] not in ("<", "=", "?") and n[0] not in have and r.random() < {"L01": .9, "L02": .8, "L03": .45}[self.profile]:
                decls.append(["@", n[0], self.ns(n[0])])
                have.add(n[0])
        return decls

    # -------------------------------------------------------------- RDF
    def rdf(self, bad=False, shacl=False, fmt=None, malformed=False):
        r = self.rng
        fmt = fmt or r.choice(["turtle", "turtle", "turtle", "trig", "n3", "ntriples", "nquads"])
        hdr = fmt in ("turtle", "trig", "n3")
        ts = []
        for _ in range(r.choice([1, 2, 3, 4])):
            o = ["=", r.choice(LITS)] if r.random() < .4 else self.name(NODES, not hdr)
            if hdr and r.random() < .08:
                o = ["=", '"\n@prefix %s: <http://no.example/> .\nPREFIX %s: <http://no.example/>\n' % ((r.choice(ALIASES),) * 2)]
            ts.append(["t", self.name(NODES, not hdr), self.name(PREDS, not hdr), o])
        if shacl or r.random() < .15:
            for _ in range(r.choice([1, 1, 2])):
                self.shapeno += 1
                n, p = iri("http://sh.example/N%d" % self.shapeno), iri("http://sh.example/P%d" % self.shapeno)
                k = r.choice(["minCount", "maxCount", "minCount"])
                ts += [["t", n, iri(A), iri(SHNS + "NodeShape")], ["t", n, iri(SHNS + "targetNode"), self.name(NODES, not hdr)],
                       ["t", n, iri(SHNS + "property"), p], ["t", p, iri(SHNS + "path"), self.name(PREDS, not hdr)], ["t", p, iri(SHNS + k), ["=", r.choice(["#0", "#1", "#2"] if k == "maxCount" else ["#1", "#2"])]]]
                if malformed or r.random() < .06:
                    ts.append(["t", n, iri(SHNS + r.choice(["minLength", "datatype"])), ["=", '"x']])
        r.shuffle(ts)
        items = []
        if hdr:
            items = self.use([x for t in ts for x in t[1:]], self.decls())
            if r.random() < .15 and len(ts) > 1:
                items += ts[:1] + self.decls(1) + ts[1:]
            else:
                items += ts
        else:
            items = ts
        lines = []
        for it in items:
            if it[0] == "@":
                lines.append(("PREFIX %s: <%s>" if fmt != "n3" and r.random() < .4 else "@prefix %s: <%s> .") % (it[1], it[2]))
            elif hdr:
                lines.append("%s %s %s ." % tuple("a" if i == 2 and x == iri(A) else term(x) for i, x in enumerate(it) if i))
            else:
                lines.append("%s %s %s ." % tuple('"%s"^^<http://www.w3.org/2001/XMLSchema#integer>' % x[1][1:] if x[0] == "=" and x[1][0] == "#" else term(x) for x in it[1:]))
        if bad:
            lines.insert(r.choice([len(lines), len(lines), max(0, len(lines) - 1)]), r.choice(["<http://a.example/n1> <http://a.example/p> .", "<http://a.example/n1 .", "<http://a.example/n1> \"p\" <http://a.example/n2> ."]))
        sep = " " if hdr and r.random() < .3 else "\n"
        return self.add({"kind": "rdf", "items": items, "hdr": hdr, "bad": "syntax" if bad else ""}, (sep.join(lines) + "\n", fmt))

    # -------------------------------------------------------------- ShEx
    def shex(self, bad=""):
        r = self.rng
        shexj = r.random() < .2 and not bad
        labs = [self.name([LABELS[0]], shexj), self.name([LABELS[1]], shexj)][:r.choice([1, 2, 2])]
        shapes = []
        for i, l in enumerate(labs):
            tcs = []
            for p in r.sample(PREDS, r.choice([1, 1, 2])):
                mn = r.choice([0, 1, 1])
                tcs.append({"p": self.name([p], shexj), "min": mn, "max": r.choice([1, 1, 2, -1]), "ref": 2 if i == 0 and len(labs) > 1 and r.random() < .4 else 0, "act": ""})
            # one predicate, one constraint: names could coincide only through aliases
            shapes.append({"label": l, "tcs": tcs})
        start = r.choice([0, 1, len(shapes)])
        decls = [] if shexj else self.use([s["label"] for s in shapes] + [t["p"] for s in shapes for t in s["tcs"]], self.decls())
        if shexj:
            def tc(t):
                e = {"type": "TripleConstraint", "predicate": t["p"][1], "min": t["min"], "max": t["max"]}
                if t["ref"]:
                    e["valueExpr"] = shapes[t["ref"] - 1]["label"][1]
                return e
            def ex(s):
                es = [tc(t) for t in s["tcs"]]
                return es[0] if len(es) == 1 else {"type": "EachOf", "expressions": es}
            j = {"@context": "http://www.w3.org/ns/shex.jsonld", "type": "Schema",
                 "shapes": [{"type": "ShapeDecl", "id": s["label"][1], "shapeExpr": {"type": "Shape", "expression": ex(s)}} for s in shapes]}
            if start:
                j["start"] = shapes[start - 1]["label"][1]
            t = json.dumps(j)
        else:
            lines = ["PREFIX %s: <%s>" % (d[1], d[2]) for d in decls]
            if start:
                lines.append("start = @" + term(shapes[start - 1]["label"]))
            for s in shapes:
                cs = []
                for t in s["tcs"]:
                    card = {(1, 1): "", (0, 1): "?", (0, -1): "*", (1, -1): "+"}.get((t["min"], t["max"]), "{%d,%s}" % (t["min"], t["max"] if t["max"] >= 0 else "*"))
                    t["act"] = r.choice("xy") if not shexj and r.random() < .2 else ""
                    act = " %%<%s>{ <http://v.example/%s> %%}" % (MAP, t["act"]) if t["act"] else ""
                    cs.append("%s %s %s%s" % (term(t["p"]), "@" + term(shapes[t["ref"] - 1]["label"]) if t["ref"] else ".", card, act))
                lines.append("%s { %s }" % (term(s["label"]), " ; ".join(cs)))
            if bad == "syntax":
                lines.append("<http://a.example/U> { <http://a.example/p> ")
            if bad == "ref":
                lines.append("<http://a.example/U> { <http://a.example/p> @<http://a.example/Missing> }")
            if bad == "cycle":
                lines.append("<http://a.example/U> { <http://a.example/p> NOT @<http://a.example/U> }")
            t = (" " if r.random() < .3 else "\n").join(lines)
        return self.add({"kind": "shex", "decls": [d[1:] for d in decls], "hdr": not shexj, "shapes": shapes, "start": start, "bad": bad}, (t, "shexj" if shexj else "shexc"))

    def smap(self, bad=False):
        r = self.rng
        as_ = []
        for _ in range(r.choice([1, 1, 2, 3])):
            as_.append([self.name(NODES), iri("START") if r.random() < .2 else self.name(LABELS)])
        t = ",".join(term(n) + "@" + ("START" if l == iri("START") else term(l)) for n, l in as_)
        return self.add({"kind": "smap", "as": as_, "bad": "syntax" if bad else ""}, (t + (r.choice([",,", "@", " ,<http://a.example/n1>"]) if bad else ""),))

    def query(self, bad=False):
        r = self.rng
        kind = r.choice(["select", "select", "select", "ask", "construct", "describe" if r.random() < .3 else "ask"])
        pat = [["?", "?s"] if r.random() < .6 else self.name(NODES), ["?", "?p"] if r.random() < .3 else self.name(PREDS),
               ["?", "?o"] if r.random() < .6 else (["=", r.choice(LITS)] if r.random() < .3 else self.name(NODES))]
        if kind == "select" and not any(x[0] == "?" for x in pat):
            pat[0] = ["?", "?s"]
        decls = self.use(pat, self.decls())
        body = "{ %s %s %s }" % tuple(term(x) for x in pat)
        vs = [x[1] for x in pat if x[0] == "?"]
        q = {"select": "SELECT %s WHERE %s" % (" ".join(vs), body), "ask": "ASK " + body, "construct": "CONSTRUCT %s WHERE %s" % (body, body),
             "describe": "DESCRIBE " + (term(pat[0]) if pat[0][0] != "?" else "?s WHERE " + body)}[kind]
        if kind == "describe" and pat[0][0] != "?":
            pat = [pat[0], ["?", "?p"], ["?", "?o"]]
        sep = " " if r.random() < .3 else "\n"
        t = sep.join(["%s %s: <%s>" % (r.choice(["PREFIX", "prefix"]), d[1], d[2]) for d in decls] + [q + (" }" if bad else "")])
        return self.add({"kind": kind, "decls": [d[1:] for d in decls], "pat": pat, "bad": "syntax" if bad else ""}, (t,))

    def pg(self, bad=False):
        r = self.rng
        facts, ls = [], []
        for n in r.sample(["g1", "g2", "g3"], r.choice([1, 2])):
            l, k = r.choice(["L", "M"]), r.choice(["k", "j"])
            facts += [[n, "label", l], [n, "key", k]]
            ls.append('(%s {"%s"} [%s: 1])' % (n, l, k))
        return self.add({"kind": "pg", "facts": facts, "bad": "syntax" if bad else ""}, ("\n".join(ls + (["(g1 {"] if bad else [])), "pg"))

    def pgs(self, bad=False):
        r = self.rng
        types = [[t, r.choice(["L", "M"]), r.choice(["k", "j"])] for t in r.sample(["T", "U"], r.choice([1, 2]))]
        return self.add({"kind": "pgs", "types": types, "bad": "syntax" if bad else ""}, (" ;\n".join("CREATE NODE TYPE ( %s : %s { %s: INTEGER })" % tuple(t) for t in types) + (" ; CREATE NODE" if bad else ""),))

    def tm(self, bad=False):
        r = self.rng
        as_ = [[r.choice(["g1", "g2", "g3"]), r.choice(["T", "T", "U"])] for _ in range(r.choice([1, 1, 2]))]
        return self.add({"kind": "tm", "as": as_, "bad": "syntax" if bad else ""}, (", ".join("%s: %s" % tuple(x) for x in as_) + (" :" if bad else ""),))

    # -------------------------------------------------------------- operations
    def op(self, kind):
        """(abstract operation, concrete step)"""
        r = self.rng
        badp = {"L01": .05, "L02": .4, "L03": .1}[self.profile]
        bad = r.random() < badp
        def pick(make, is_kind, fresh=.5):
            have = [d["id"] for d in self.docs if is_kind(d) and bool(d["bad"]) == bad]
            return r.choice(have) if have and r.random() > fresh else make()
        if kind == "load_data":
            pg = r.random() < .12
            if pg:
                n = r.choice([1, 1, 1, 2])
                ds = [pick(lambda: self.pg(bad), lambda d: d["kind"] == "pg")] + [self.pg() for _ in range(n - 1)]
                r.shuffle(ds)
                merge = r.random() < .7
                return ({"op": "load_data", "pg": True, "ds": ds, "docs": 0, "merge": merge, "badopt": False, "pfx": []},
                        {"op": "load_data", "data": [self.text[i - 1][0] for i in ds], "format": "pg", "merge": merge})
            d = pick(lambda: self.rdf(bad), lambda d: d["kind"] == "rdf")
            fmt = self.text[d - 1][1]
            ds = [d]
            while r.random() < .25 and len(ds) < 3:
                ds.append(self.rdf(False, fmt=fmt))
            if r.random() < .5:
                r.shuffle(ds)
            if r.random() < .02:
                ds = []
            merge = r.random() < .7
            st = {"op": "load_data", "data": [self.text[i - 1][0] for i in ds], "format": fmt, "merge": merge}
            pfx, badopt = [], False
            if r.random() < .1 and ds:
                pfx = [[a, self.ns(a)] for a in [r.choice(ALIASES[:2])]]
                st["prefixes"] = ["%s : <%s>" % tuple(x) for x in pfx]
                if bad and r.random() < .5:
                    badopt = True
                    st["prefixes"].append(r.choice(["nonsense", "z: <not an iri>"]))
            if bad and r.random() < .2:
                badopt = True
                st["base"] = "not an iri"
            return {"op": "load_data", "pg": False, "ds": ds, "docs": 0, "merge": merge, "badopt": badopt, "pfx": pfx}, st
        if kind in ("load_shex", "check_shex"):
            d = pick(lambda: self.shex(r.choice(["syntax", "ref", "cycle"]) if bad else ""), lambda d: d["kind"] == "shex")
            return {"op": kind, "d": d, "doc": 0}, {"op": kind, "schema": self.text[d - 1][0], "format": self.text[d - 1][1]}
        if kind == "load_shapemap":
            d = pick(lambda: self.smap(bad), lambda d: d["kind"] == "smap", .8)
            return {"op": kind, "d": d, "doc": 0}, {"op": kind, "shapemap": self.text[d - 1][0]}
        if kind == "add_node_shape":
            n, l = self.name(NODES), iri("START") if r.random() < .2 else self.name(LABELS)
            st = {"op": kind, "node": term(n)}
            if l != iri("START"):
                st["shape"] = term(l)
            if bad:
                st[r.choice(["node", "shape"])] = r.choice(["((", "<http://a.example/n1"])
            return {"op": kind, "node": n, "shape": l, "bad": "syntax" if bad else ""}, st
        if kind == "load_shacl":
            mal = bad and r.random() < .6      # RDF, but no shapes graph
            d = self.rdf(False, True, malformed=True) if mal else pick(lambda: self.rdf(bad, True), lambda d: d["kind"] == "rdf")
            return {"op": kind, "d": d, "doc": 0}, {"op": kind, "shapes": self.text[d - 1][0], "format": self.text[d - 1][1]}
        if kind == "extract_shacl":
            return {"op": kind}, {"op": "load_shacl"}
        if kind == "validate_shacl":
            return {"op": kind}, {"op": kind, "mode": r.choice(["native", "sparql"])}
        if kind == "load_query":
            d = pick(lambda: self.query(bad), lambda d: "pat" in d)
            return {"op": kind, "d": d, "doc": 0}, {"op": kind, "query": self.text[d - 1][0]}
        if kind in ("load_pgschema", "load_typemap"):
            k = kind[5:]
            d = pick(lambda: (self.pgs if k == "pgschema" else self.tm)(bad), lambda d: d["kind"] == ("pgs" if k == "pgschema" else "tm"))
            return {"op": kind, "d": d, "doc": 0}, {"op": kind, {"pgschema": "schema", "typemap": "typemap"}[k]: self.text[d - 1][0]}
        if kind == "load_dctap":
            i = r.choice([1, 2])
            return {"op": kind, "id": i, "bad": ""}, {"op": kind, "dctap": "shapeID,propertyID,mandatory\nS%d,ex:p,TRUE\n,ex:q%d,FALSE\n" % (i, i), "format": "csv"}
        if kind == "load_service":
            i = r.choice([1, 2])
            return ({"op": kind, "id": i, "bad": "syntax" if bad else ""},
                    {"op": kind, "data": "@prefix sd: <http://www.w3.org/ns/sparql-service-description#> .\n<http://s%d.example/sparql> a sd:Service ; sd:endpoint <http://s%d.example/sparql> ; sd:supportedLanguage sd:SPARQL1%dQuery %s" % (i, i, i - 1, ";;" if bad else ".")})
        if kind == "load_rdf_config":
            i = r.choice([1, 2])
            return {"op": kind, "id": i, "bad": "syntax" if bad else ""}, {"op": kind, "config": "a: %d\nb:\n - c\n%s" % (i, "d: [" if bad else "")}
        if kind == "load_map_state":
            i = r.choice([1, 2])
            return {"op": kind, "id": i, "bad": "syntax" if bad else ""}, {"op": kind, "state": '{"http://v.example/x": {"Iri": "http://a.example/n%d"}%s' % (i, "" if bad else "}")}
        if kind == "add_prefix":
            a = r.choice(ALIASES)
            i = self.ns(a)
            if bad:
                return {"op": kind, "alias": a, "iri": i, "bad": "bad"}, r.choice([{"op": kind, "alias": "a b", "iri": i}, {"op": kind, "alias": a, "iri": "not an iri"}, {"op": kind, "alias": a, "iri": "relative"}, {"op": kind, "alias": "-x", "iri": i}, {"op": kind, "alias": "a.", "iri": i}])
            return {"op": kind, "alias": a, "iri": i, "bad": ""}, {"op": kind, "alias": a, "iri": i}
        if kind == "remove_prefix":
            a = r.choice(ALIASES + ["zz"])
            return {"op": kind, "alias": a}, {"op": kind, "alias": a}
        if kind in ("rename_prefix", "copy_prefix"):
            a, b = r.choice(ALIASES + ["zz"]), r.choice(ALIASES)
            x = bad and r.random() < .5
            return {"op": kind, "old": a, "new": b, "bad": "bad" if x else ""}, {"op": kind, "old": a, "new": "1a" if x else b}
        if kind == "list_data":
            return {"op": kind}, {"op": "list_data"}
        if kind == "snapshot":
            return {"op": kind}, {"op": kind, "nodes": SNAPNODES}
        return {"op": kind}, {"op": kind}


# ------------------------------------------------------------------ observations
NT = re.compile(r'(<[^>]*>|_:\S+|"(?:[^"\\]|\\.)*"(?:\^\^<[^>]*>|@\S+)?)\s+(<[^>]*>)\s+(<[^>]*>|_:\S+|"(?:[^"\\]|\\.)*"(?:\^\^<[^>]*>|@\S+)?)\s*\.')


def plain(t):
    """a term of N-Triples as the specification writes it"""
    if t[0] == "<":
        return t[1:-1]
    if t[0] == '"':
        m = re.fullmatch(r'"((?:[^"\\]|\\.)*)"(?:\^\^<([^>]*)>)?', t, re.S)
        if not m:
            return t
        lex = re.sub(r"\\(.)", lambda x: {"n": "\n", "t": "\t", "r": "\r"}.get(x[1], x[1]), m[1])
        return ("#" if m[2] and m[2].endswith("#integer") else '"') + lex
    return t


def row_term(t):
    if t[0] == '"' and t.endswith(">") or t[0] in '<"':
        return plain(t)
    return "#" + t if t.isdigit() else t


def observe(op, out):
    """[ok, judge, v, fail, snap] of a step"""
    o = {"ok": "ok" in out, "judge": False, "v": [], "fail": "", "snap": {}}
    if "panic" in out:
        o["fail"] = "panic: " + out["panic"]
        return o
    if "err" in out:
        return o
    v, k = out["ok"], op["op"]
    yn = lambda x: "yes" if x else "no"
    try:
        if k == "snapshot":
            o["snap"] = {a: hashlib.md5(re.sub(r"vf_scratch_\w+|\?[0-9a-f]{24,}", "", b).encode()).hexdigest()[:10] for a, b in v.items()}
        elif k in ("has_data", "check_shex"):
            o["v"], o["judge"] = [[yn(v)]], True
        elif k == "list_data":
            o["v"], o["judge"] = [[plain(x) for x in m] for m in NT.findall(v)], True
        elif k in ("validate_shex", "shex_results"):
            o["judge"] = True
            o["v"] = [["none"]] if v is None else [[n, "START" if l == "Start" else l, yn(s == "conformant")] if s in ("conformant", "nonconformant") else [n, l, s] for n, l, s in v]
        elif k in ("validate_shacl", "shacl_report"):
            ts = [[plain(x) for x in m] for m in NT.findall(v)]
            res = {}
            for s, p, x in ts:
                res.setdefault(s, {})[p] = x
            o["judge"] = True
            o["v"] = [[d.get(SHNS + "focusNode", "?"), d.get(SHNS + "sourceShape", "?"), d.get(SHNS + "sourceConstraintComponent", "?")[len(SHNS):].replace("ConstraintComponent", "")]
                      for d in res.values() if d.get(A) == SHNS + "ValidationResult"]
            conf = [x for s, p, x in ts if p == SHNS + "conforms"]
            if (conf != ['"true']) == (not o["v"]):
                o["fail"] = "conforms is %s" % conf
        elif k == "run_query":
            if "ask" in v:
                o["v"], o["judge"] = [[yn(v["ask"])]], True
            elif "select" in v:
                o["rows"] = v["select"]["solutions"] if isinstance(v["select"], dict) else v["select"]
        elif k in ("validate_pgschema", "pg_report"):
            j = json.loads(v)
            o["v"], o["judge"] = [[x["node_id"], x["type_name"], yn(x["conforms"])] for x in j["associations"]], True
        elif k == "prefixes":
            o["v"], o["judge"] = v, True
    except Exception as e:   # noqa
        o["fail"] = "unreadable: %r %s" % (e, str(v)[:80])
    return o


def add_rows(g, run):
    """SELECT rows completed to triples with the constants of the query (resolved by the specification)"""
    q = None
    for op, st, ob in zip(run["ops"], run["steps"], run["obs"]):
        if op["op"] == "load_query" and ob["ok"]:
            q = g.docs[op["d"] - 1]
        rows = ob.pop("rows", None)
        if rows is not None:
            pat = q["pat"]
            if all(x[0] == "?" or x[0] in ("<", "=") for x in pat):
                ob["v"] = [[row_term(r.get(x[1][1:], "?")) if x[0] == "?" else x[1] for x in pat] for r in rows]
                ob["judge"] = True


# ------------------------------------------------------------------ a fresh session in the same state
RESET = {"data": "reset_data", "sch": "reset_shex_schema", "smap": "reset_shapemap", "shl": "reset_shacl_shapes", "qry": "reset_query", "pgs": "reset_pgschema", "tm": "reset_typemap"}


class Slots:
    """which steps built what is loaded now; a program is a list of (env, op, step)"""
    def __init__(self):
        self.pre = {}
        self.p = {k: None for k in list(RESET) + ["sres", "map", "hres", "qres", "pgres", "tap", "svc", "cfg"]}
        self.data_kind = None

    def step(self, op, st, ok):
        k, p = op["op"], self.p
        if not ok:
            return
        x = (dict(self.pre), op, st)
        off = lambda *ks: [({}, {"op": RESET[s]}, {"op": RESET[s]}) for s in ks]
        get = lambda *ks: [y for s in ks for y in (p[s] or [])]
        if k == "load_data":
            if not op["ds"]:
                return
            kind = "pg" if op["pg"] else "rdf"
            keep = op["merge"] and self.data_kind == kind and p["data"]
            p["data"] = (p["data"] if keep else []) + [x]
            self.data_kind = kind
        elif k == "load_shex":
            p["sch"] = [x]
        elif k == "load_shapemap":
            p["smap"] = get("data", "sch") + [x] + off("data", "sch")
        elif k == "add_node_shape":
            p["smap"] = get("smap") + (get("data") if self.data_kind == "rdf" else []) + get("sch") + [x] + off("data", "sch")
        elif k == "validate_shex":
            p["sres"] = get("smap", "data", "sch") + [x] + off("data", "sch", "smap")
            p["map"] = []
        elif k == "load_shacl":
            p["shl"] = [x]
        elif k == "extract_shacl":
            p["shl"] = get("data") + [x] + off("data")
        elif k == "validate_shacl":
            p["hres"] = get("shl", "data") + [x] + off("shl", "data")
        elif k == "load_query":
            p["qry"] = [x]
        elif k == "run_query":
            p["qres"] = get("qry", "data") + [x] + off("qry", "data")
        elif k == "validate_pgschema":
            p["pgres"] = get("data", "pgs", "tm") + [x] + off("data", "pgs", "tm")
        elif k in ("load_pgschema", "load_typemap", "load_dctap", "load_service", "load_rdf_config", "load_map_state"):
            p[{"load_pgschema": "pgs", "load_typemap": "tm", "load_dctap": "tap", "load_service": "svc", "load_rdf_config": "cfg", "load_map_state": "map"}[k]] = [x]
        elif k == "add_prefix":
            self.pre[op["alias"]] = op["iri"]
        elif k == "remove_prefix":
            self.pre.pop(op["alias"], None)
        elif k == "rename_prefix":
            self.pre[op["new"]] = self.pre.pop(op["old"], "urn:c:")
        elif k == "copy_prefix":
            self.pre[op["new"]] = self.pre.get(op["old"], "urn:c:")
        else:
            gone = {"reset_data": ["data"], "reset_shex_schema": ["sch"], "reset_shex": ["sch", "smap", "sres", "map"], "reset_shapemap": ["smap"], "reset_shacl_shapes": ["shl"],
                    "reset_shacl": ["shl", "hres"], "reset_query": ["qry"], "reset_query_results": ["qry", "qres"], "reset_pgschema": ["pgs"], "reset_typemap": ["tm"],
                    "reset_pg_validation": ["pgs", "tm", "pgres"], "reset_dctap": ["tap"], "reset_service": ["svc"], "reset_rdf_config": ["cfg"], "reset_all": list(p)}.get(k, [])
            for s in gone:
                p[s] = None
            if "data" in gone:
                self.data_kind = None
            if k == "reset_all":
                self.pre = {}

    def program(self):
        """steps of a fresh session that loads just this"""
        out, cur = [], {}

        def env(want):
            nonlocal cur
            for a in [a for a in cur if cur[a] != want.get(a)]:
                out.append(({"op": "remove_prefix", "alias": a}, {"op": "remove_prefix", "alias": a}))
            for a in [a for a in want if cur.get(a) != want[a]]:
                out.append(({"op": "add_prefix", "alias": a, "iri": want[a], "bad": ""}, {"op": "add_prefix", "alias": a, "iri": want[a]}))
            cur = dict(want)
        for slot in ["sres", "map", "hres", "qres", "pgres", "smap", "shl", "qry", "pgs", "tm", "sch", "data", "tap", "svc", "cfg"]:
            for e, op, st in self.p[slot] or []:
                if "load" in op["op"]:
                    env(e)
                out.append((op, st))
        env(self.pre)
        return out


# ------------------------------------------------------------------ histories
def weights(profile):
    w = {"load_data": 10, "reset_data": 2, "has_data": 1, "list_data": 3, "load_shex": 7, "check_shex": 1, "reset_shex_schema": 1, "reset_shex": 1, "load_shapemap": 6, "add_node_shape": 4, "reset_shapemap": 1,
         "validate_shex": 8, "shex_results": 1, "load_shacl": 4, "extract_shacl": 2, "reset_shacl_shapes": 1, "reset_shacl": 1, "validate_shacl": 5, "shacl_report": 1, "load_query": 5, "run_query": 6, "reset_query": 1,
         "reset_query_results": 1, "load_pgschema": 2, "reset_pgschema": .5, "load_typemap": 2, "reset_typemap": .5, "validate_pgschema": 2, "pg_report": .5, "reset_pg_validation": .5, "load_dctap": .7, "reset_dctap": .4,
         "load_service": .7, "reset_service": .4, "load_rdf_config": .7, "reset_rdf_config": .4, "load_map_state": .7, "map_state": .7, "add_prefix": 3, "remove_prefix": 1, "rename_prefix": 1, "copy_prefix": 1, "prefixes": 1,
         "reset_all": .7, "snapshot": 3}
    if profile == "L03":
        for k in ("add_prefix", "remove_prefix", "rename_prefix", "copy_prefix", "prefixes"):
            w[k] *= 5
        w["check_shex"] = 3
        for k in w:
            if "pg" in k or k in ("load_dctap", "load_service", "load_rdf_config", "load_map_state", "map_state"):
                w[k] = .2
    if profile == "L02":
        for k in ("reset_data", "reset_shex", "reset_all", "reset_shex_schema", "reset_shapemap"):
            w[k] *= .5
        for k in ("load_pgschema", "load_typemap", "load_service", "load_rdf_config", "load_map_state"):
            w[k] *= 2
    return w


def history(g, n, focus=None):
    """random operations; a focus keeps to one corner of the session"""
    r = g.rng
    w = weights(g.profile)
    if focus == "pg":
        w = {k: v * (6 if "pg" in k or "typemap" in k else .3) for k, v in w.items()}
    ks = list(w)
    out = []
    for k in r.choices(ks, [w[k] for k in ks], k=n):
        if focus == "pg" and k == "load_data":
            x = next(y for y in iter(lambda: g.op("load_data"), None) if y[0]["pg"] or r.random() < .05)
        else:
            x = g.op(k)
        b = x[0].get("bad") or (x[0].get("d") and g.docs[x[0]["d"] - 1]["bad"]) or any(g.docs[i - 1]["bad"] for i in x[0].get("ds", [])) or x[0].get("badopt")
        if b and r.random() < .8:
            out += [g.op("snapshot"), x, g.op("snapshot")]
        else:
            out.append(x)
        if k in ("validate_shex", "validate_shacl", "run_query", "validate_pgschema") and r.random() < .25:
            out.append(g.op("snapshot"))
    return out


PROBE = ["prefixes", "has_data", "list_data", "shex_results", "validate_shex", "shacl_report", "validate_shacl", "run_query", "pg_report", "validate_pgschema", "map_state", "snapshot"]


def probe(g, loads=True):
    """afterwards: use everything there is, and load new documents"""
    ks = list(PROBE)
    if loads:
        ks += ["extract_shacl", "validate_shacl", "load_shapemap", "validate_shex", "snapshot", "load_query", "run_query"]
        if g.profile == "L03":
            ks += ["check_shex", "load_shex", "load_data", "list_data", "load_shapemap", "validate_shex", "load_shacl", "validate_shacl", "load_query", "run_query"]
    return [g.op(k) for k in ks]


def execute(batch, timeout=30):
    """batch: list of (gen, [run]) where a run is a list of (op, step); the recorded runs"""
    cmds = [{"steps": [st for _, st in run]} for _, runs in batch for run in runs]
    ans = iter(run_harness("h_lib", cmds, timeout=timeout))
    res = []
    for g, runs in batch:
        rr = []
        for run in runs:
            a = next(ans)
            outs = a.get("out") if isinstance(a.get("out"), list) else [{"panic": str([k for k in a if k in ("hang", "crash", "out")])}]
            rec = {"ops": [op for op, _ in run], "steps": [st for _, st in run], "out": outs}
            rec["obs"] = [observe(op, o) for op, o in zip(rec["ops"], outs)]
            add_rows(g, rec)
            rr.append(rec)
        res.append(rr)
    return res


def events(c, cases):
    """cases: (gen, history). Runs it, then a fresh session brought to the same state, both followed by the same probe"""
    sfx = [probe(g) for g, _ in cases]
    first = execute([(g, [h + s]) for (g, h), s in zip(cases, sfx)])
    fresh = []
    for (g, h), s, rr in zip(cases, sfx, first):
        sl = Slots()
        for (op, st), ob in zip(h, rr[0]["obs"]):
            sl.step(op, st, ob["ok"])
        prog = sl.program()
        fresh.append((g, [prog + [g.op("snapshot")] + s] if len(prog) < 150 else []))
    second = execute(fresh)
    evs, recs = [], []
    for (g, _), a, b in zip(cases, first, second):
        runs = a + b
        evs.append({"docs": g.docs, "count": False, "runs": [{"ops": x["ops"], "obs": x["obs"]} for x in runs]})
        recs.append(runs)
    return evs, recs


def replay(recs):
    def f(i):
        return {"runs": [[{"step": st, "answer": o} for st, o in zip(x["steps"], x["out"])] for x in recs[i]]}
    return f


def judge_cases(c, part, cases):
    evs, recs = events(c, cases)
    c.validate(part, "SessionTrace", evs, replay=replay(recs), n_impl=sum(len(r) for r in recs))
    # how much was comparable: pairs of snapshots of equal states
    from .core import judge
    sample = [dict(e, count=True) for e in evs[:60]]
    r = judge("SessionTrace", sample)
    same = 0
    for _, w in r.rejects:
        m = re.search(r'same\W+(\d+)', str(w))
        same += int(m[1]) if m else 0
    c.parts[-1]["equal_state_pairs_in_first_60"] = same


def random_cases(c, profile, n, length):
    out = []
    for i in range(n):
        g = Gen(c.rng, profile)
        out.append((g, history(g, c.rng.choice(length), "pg" if i % 8 == 7 else None)))
    return out


def short_cases(c, profile, n):
    """every sequence of n operations over a small alphabet with fixed documents"""
    def alphabet():
        import random
        g = Gen(random.Random("alphabet"), "L01")
        a = ALIASES[0]
        d1 = g.add({"kind": "rdf", "items": [["@", a, NSS[0]], ["t", [a, "n1"], [a, "p"], [a, "n2"]]], "hdr": True, "bad": ""}, ("@prefix ex: <http://a.example/> . ex:n1 ex:p ex:n2 .", "turtle"))
        d2 = g.add({"kind": "rdf", "items": [["t", [a, "n1"], [a, "q"], ["=", '"x']]], "hdr": True, "bad": ""}, ('ex:n1 ex:q "x" .', "turtle"))
        sh = [["t", iri("http://sh.example/N"), iri(A), iri(SHNS + "NodeShape")], ["t", iri("http://sh.example/N"), iri(SHNS + "targetNode"), iri(NSS[0] + "n1")], ["t", iri("http://sh.example/N"), iri(SHNS + "property"), iri("http://sh.example/P")],
              ["t", iri("http://sh.example/P"), iri(SHNS + "path"), iri(NSS[0] + "q")], ["t", iri("http://sh.example/P"), iri(SHNS + "minCount"), ["=", "#1"]]]
        d3 = g.add({"kind": "rdf", "items": sh, "hdr": True, "bad": ""}, ("\n".join("%s %s %s ." % tuple(term(x) for x in t[1:]) for t in sh), "turtle"))
        d4 = g.add({"kind": "rdf", "items": [["t", iri(NSS[0] + "n3"), iri(NSS[0] + "p"), iri(NSS[0] + "n3")]], "hdr": True, "bad": "syntax"}, ("<http://a.example/n3> <http://a.example/p> <http://a.example/n3> . <http://a.example/n3> .", "turtle"))
        s1 = g.add({"kind": "shex", "decls": [], "hdr": True, "start": 1, "bad": "", "shapes": [{"label": [a, "S"], "tcs": [{"p": [a, "p"], "min": 1, "max": 1, "ref": 0, "act": ""}]}]}, ("start=@ex:S ex:S { ex:p . }", "shexc"))
        s2 = g.add({"kind": "shex", "decls": [[a, NSS[0]]], "hdr": True, "start": 0, "bad": "", "shapes": [{"label": [a, "S"], "tcs": [{"p": [a, "q"], "min": 1, "max": 1, "ref": 0, "act": ""}]}]}, ("PREFIX ex: <http://a.example/> ex:S { ex:q . }", "shexc"))
        m1 = g.add({"kind": "smap", "as": [[iri(NSS[0] + "n1"), iri(NSS[0] + "S")]], "bad": ""}, ("<http://a.example/n1>@<http://a.example/S>",))
        q1 = g.add({"kind": "select", "decls": [], "pat": [["?", "?s"], [a, "p"], ["?", "?o"]], "bad": ""}, ("SELECT ?s ?o WHERE { ?s ex:p ?o }",))
        ld = lambda ds, merge: ({"op": "load_data", "pg": False, "ds": ds, "docs": 0, "merge": merge, "badopt": False, "pfx": []}, {"op": "load_data", "data": [g.text[i - 1][0] for i in ds], "format": "turtle", "merge": merge})
        ops = [ld([d1], True), ld([d2], True), ld([d3], False), ld([d1, d4], False), ld([d4], True),
               ({"op": "load_shex", "d": s1, "doc": 0}, {"op": "load_shex", "schema": g.text[s1 - 1][0], "format": "shexc"}),
               ({"op": "load_shex", "d": s2, "doc": 0}, {"op": "load_shex", "schema": g.text[s2 - 1][0], "format": "shexc"}),
               ({"op": "load_shapemap", "d": m1, "doc": 0}, {"op": "load_shapemap", "shapemap": g.text[m1 - 1][0]}),
               ({"op": "add_node_shape", "node": [a, "n1"], "shape": [a, "S"], "bad": ""}, {"op": "add_node_shape", "node": "ex:n1", "shape": "ex:S"}),
               ({"op": "validate_shex"}, {"op": "validate_shex"}), ({"op": "reset_data"}, {"op": "reset_data"}), ({"op": "reset_shex"}, {"op": "reset_shex"}), ({"op": "reset_shex_schema"}, {"op": "reset_shex_schema"}),
               ({"op": "load_shacl", "d": d3, "doc": 0}, {"op": "load_shacl", "shapes": g.text[d3 - 1][0], "format": "turtle"}), ({"op": "extract_shacl"}, {"op": "load_shacl"}), ({"op": "validate_shacl"}, {"op": "validate_shacl"}), ({"op": "reset_shacl"}, {"op": "reset_shacl"}),
               ({"op": "load_query", "d": q1, "doc": 0}, {"op": "load_query", "query": g.text[q1 - 1][0]}), ({"op": "run_query"}, {"op": "run_query"}), ({"op": "reset_query"}, {"op": "reset_query"}),
               ({"op": "add_prefix", "alias": a, "iri": NSS[0], "bad": ""}, {"op": "add_prefix", "alias": a, "iri": NSS[0]}), ({"op": "remove_prefix", "alias": a}, {"op": "remove_prefix", "alias": a}),
               ({"op": "rename_prefix", "old": a, "new": "p2", "bad": ""}, {"op": "rename_prefix", "old": a, "new": "p2"}), ({"op": "copy_prefix", "old": "p2", "new": a, "bad": ""}, {"op": "copy_prefix", "old": "p2", "new": a}), ({"op": "reset_all"}, {"op": "reset_all"})]
        full = [({"op": "load_shapemap", "d": m1, "doc": 0}, {"op": "load_shapemap", "shapemap": g.text[m1 - 1][0]}), ({"op": "load_query", "d": q1, "doc": 0}, {"op": "load_query", "query": g.text[q1 - 1][0]}), ({"op": "load_shacl", "d": d3, "doc": 0}, {"op": "load_shacl", "shapes": g.text[d3 - 1][0], "format": "turtle"})]
        return g, ops, full
    g, ops, full = alphabet()
    seqs = list(itertools.product(range(len(ops)), repeat=2))
    if n > len(seqs):
        seqs += c.rng.sample(list(itertools.product(range(len(ops)), repeat=3)), min(n - len(seqs), 25 ** 3))
    # before: nothing, or a session with everything loaded
    loaded = [ops[i] for i in (20, 0, 5, 7, 9, 13, 15, 17, 18)]
    out = []
    for i, s in enumerate(seqs):
        for pre in ([], loaded):
            h = list(pre)
            for j in s:
                h += [ops[j]]
            h += [({"op": "snapshot"}, {"op": "snapshot", "nodes": SNAPNODES})] + [({"op": k}, {"op": k, "nodes": SNAPNODES} if k == "snapshot" else {"op": k}) for k in PROBE] + full + [({"op": k}, {"op": k, "nodes": SNAPNODES} if k == "snapshot" else {"op": k}) for k in ("validate_shex", "validate_shacl", "run_query", "snapshot")]
            out.append(h)
    # one event per group of histories over the same documents, so that equal states are compared across histories
    evs, recs = [], []
    K = 12
    batches = [out[i::(len(out) + K - 1) // K] for i in range((len(out) + K - 1) // K)]
    for rr in execute([(g, b) for b in batches]):
        evs.append({"docs": g.docs, "count": False, "runs": [{"ops": x["ops"], "obs": x["obs"]} for x in rr]})
        recs.append(rr)
    c.validate("short histories", "SessionTrace", evs, replay=replay(recs), n_impl=len(out))


def l01(c):
    short_cases(c, "L01", c.pick(900, 16000))
    judge_cases(c, "histories", random_cases(c, "L01", c.pick(700, 6000), [6, 12, 20, 28]))


def l02(c):
    judge_cases(c, "failing operations", random_cases(c, "L02", c.pick(900, 7000), [6, 12, 20, 28]))


def l03(c):
    judge_cases(c, "prefix edits and loads", random_cases(c, "L03", c.pick(1000, 7000), [6, 12, 20]))
