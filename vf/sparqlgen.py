"""SPARQL queries of SHACL's SPARQL-based constraints: random generation, printing, encoding for the specification."""
from .shaclgen import *

RES_I = [iri(E + "n%d" % i) for i in range(1, 6)]
PREDS = [P, Q, R_, S_]
PFX = [("ex", E), ("n", E + "n"), ("rdf", RDFNS), ("xsd", XSD), ("values", E), ("", E)]


def V(n):
    return ("v", n)


def K(t):
    return ("c", t)


THIS = V("this")


def negless(x, neg):
    return (neg and x["k"] == "lt") or any(negless(y, neg or x["k"] == "not") for y in x.get("es", []))


def vars_of(g):
    """the variables in scope of a group"""
    out = set()
    for x in g["ps"]:
        k = x["k"]
        if k == "triple":
            out |= {y[1] for y in (x["s"], x["p"], x["o"]) if isinstance(y, tuple) and y[0] == "v"}
        elif k in ("group", "opt"):
            out |= vars_of(x["g"])
        elif k == "union":
            for h in x["gs"]:
                out |= vars_of(h)
        elif k in ("bind", "values"):
            out.add(x["v"])
        elif k == "select":
            out |= set(x["vars"])
    return out


class QGen:
    def __init__(self, rng, consts, strs=False, path=None, minus=False):
        self.rng, self.consts, self.strs, self.path, self.fresh, self.minus, self.this, self.pvs = rng, consts, strs, path, 0, minus, True, set()

    def newvar(self):
        self.fresh += 1
        return "abcdefghijklmnop"[self.fresh % 16] + str(self.fresh)

    def path_(self, d=2):
        r = self.rng
        k = r.choice(["p"] * 3 + ["inv", "seq", "alt", "star", "plus", "opt"]) if d else "p"
        if k == "p":
            return pr(r.choice(PREDS))
        if k in ("seq", "alt"):
            return {"k": k, "es": [self.path_(d - 1), self.path_(d - 1)]}
        return {"k": k, "e": self.path_(d - 1)}

    def triple(self, req, want=None):
        """a triple pattern over known variables and at most one fresh one"""
        r = self.rng
        known = [THIS, THIS] + [V(x) for x in sorted(req)]
        s = r.choice(known) if r.random() < .9 else K(r.choice([t for t in self.consts if t[0] == 'iri']))
        new = want or self.newvar()
        o = V(new) if want or r.random() < .65 else r.choice(known + [K(r.choice(self.consts))])
        x = r.random()
        p = pr(r.choice(PREDS)) if x < .75 else self.path_() if x < .95 else V(self.newvar())
        if r.random() < .12 and p["k"] == "p" if isinstance(p, dict) else False:
            s, o = o, s
        if self.path is not None and isinstance(p, dict) and r.random() < .25:
            return {"k": "triple", "s": s, "p": self.path, "o": o, "PATH": True}, {v[1] for v in (s, o) if v[0] == "v"} - {"this"}, set()
        got = {v[1] for v in (s, o) if v[0] == "v"} | ({p[1]} if isinstance(p, tuple) else set())
        if isinstance(p, tuple) and self.minus:
            self.pvs.add(p[1])
        return {"k": "triple", "s": s, "p": p, "o": o}, got - {"this"}, ({p[1]} if isinstance(p, tuple) else set())

    def expr(self, req, may, d=2):
        while True:     # x < y for terms without an order: an error in the standard, which extensions may make false
            x = self.expr0(req, may, d)
            if not negless(x, False):
                return x

    def expr0(self, req, may, d):
        r = self.rng
        vs = [V(x) for x in sorted(req | may)] + [THIS] * self.this
        a = r.choice(vs or [THIS])
        b = r.choice(vs + [K(t) for t in self.consts])
        if self.minus and a == b:       # ?x = ?x for an unbound variable is an error in the standard, which oxigraph takes for true
            b = K(r.choice(self.consts))
        k = r.choice(["iri", "blank", "lit", "bound", "exists", "exists", "nexists", "nexists"] + (["lang", "dt", "lang"] if self.strs else ["eq", "ne", "lt", "eq", "ne", "same"]) + ["not", "and", "or"] * bool(d))
        if k in ("not", "and", "or"):
            return {"k": k, "es": [self.expr(req, may, d - 1) for _ in range(1 if k == "not" else 2)]}
        if k in ("exists", "nexists"):
            return {"k": k, "g": self.simple(req - self.pvs)}    # (paths of length zero are only asked of terms of the graph)
        if k == "bound":
            return {"k": k, "a": a}
        if k == "lang":
            return {"k": k, "a": a, "tag": r.choice(["en", "fr", ""])}
        if k == "dt":
            return {"k": k, "a": a, "dt": r.choice(["string", "integer"])}
        if k in ("iri", "blank", "lit"):
            return {"k": k, "a": a}
        return {"k": k, "a": a, "b": b}

    def simple(self, req):
        """triples and perhaps a filter, for EXISTS and OPTIONAL"""
        r, ps, got = self.rng, [], set(req)
        pv = set()
        for _ in range(r.choice([1, 1, 2])):
            t, g, p = self.triple(got - pv)
            ps.append(t)
            got |= g
            pv |= p
        self.scope(ps)
        return {"ps": ps, "fs": [self.expr(got, set(), 0)] if r.random() < .3 else [], "got": got - set(req)}

    def scope(self, ps):
        """filters are about variables of their own group (oxigraph moves others out of it); $this is bound beforehand in constraints"""
        self.this = not self.minus or "this" in vars_of({"ps": ps})

    def group(self, d, want=None, first=None):
        """a group whose own required variables are returned with it; want: a variable to bind"""
        r, ps, req, may, pv = self.rng, [], set(), set(), set()
        if first:
            ps.append(first)
            req |= {"value"}
        elif want or r.random() < .85:
            t, g, p = self.triple(req, want)
            ps.append(t)
            req |= g
            pv |= p
        for _ in range(r.choice([0, 1, 1, 2, 3]) if d else r.choice([0, 0, 1])):
            k = r.choice(["triple"] * 4 + ["opt", "opt", "bind", "values"] + ["group", "union", "union", "select"] * (d > 0) + ["minus"] * self.minus)
            use = req - pv
            if k == "triple":
                t, g, p = self.triple(use)
                ps.append(t)
                req |= g
                pv |= p
            elif k == "opt":
                g = self.simple(use)
                ps.append({"k": "opt", "g": g})
                may |= g["got"]
            elif k == "minus":
                ps.append({"k": "minus", "g": self.simple(use)})
            elif k == "bind":
                n = self.newvar()
                a = r.choice([THIS, THIS, K(r.choice(self.consts))] + [V(x) for x in sorted(req)])
                if a[1] in self.pvs:
                    self.pvs.add(n)
                ps.append({"k": "bind", "a": a, "v": n})
                req.add(n)
            elif k == "values":
                n = r.choice(sorted(use) + [self.newvar()])
                ps.append({"k": "values", "v": n, "ns": r.sample(self.consts, min(len(self.consts), r.choice([1, 2, 3])))})
                req.add(n)
            elif k == "group":
                g, q, m = self.group(d - 1)
                ps.append({"k": "group", "g": g})
                req |= q
                may |= m
            elif k == "union":
                gs = [self.group(d - 1) for _ in range(r.choice([2, 2, 3]))]
                ps.append({"k": "union", "gs": [x[0] for x in gs]})
                both = set.intersection(*[x[1] for x in gs])
                may |= set.union(*[x[1] | x[2] for x in gs]) - both
                req |= both
            else:
                g, q, m = self.group(d - 1)
                keep = set(r.sample(sorted(q), min(len(q), r.choice([1, 2]))))
                ps.append({"k": "select", "vars": ["this"] + sorted(keep), "g": g})
                req |= keep
        may -= req
        self.scope(ps)
        fs = [self.expr(req, may) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        return {"ps": ps, "fs": fs}, req, may

    def query(self):
        r = self.rng
        d = r.choice([0, 1, 1, 2])
        if self.path is not None:
            g, req, may = self.group(d, first={"k": "triple", "s": THIS, "p": self.path, "o": V("value"), "PATH": True})
            vs = ["this", "value"]
        else:
            x = r.random()
            g, req, may = self.group(d, want="value" if x < .6 else None)
            vs = ["this"]
            if "value" in req:
                vs.append("value")
            elif req and x < .9:
                g["ps"].append({"k": "bind", "a": V(r.choice(sorted(req | may))), "v": "value"})
                vs.append("value")
            if r.random() < .15:
                g["ps"].append({"k": "triple", "s": THIS, "p": V("path"), "o": V("value") if "value" in vs and r.random() < .7 else V("o")})
                vs.append("path")
        return {"vars": vs, "g": g}


class Printer:
    def __init__(self, rng, prefixes):
        self.rng, self.prefixes = rng, prefixes      # declared prefixes

    def ws(self):
        r = self.rng
        x = r.random()
        return " " if x < .93 else "\n" if x < .96 else r.choice(["\n# where { $this }\n", " #{ select\n", "\n# \"values\n", "\n#'''\n"])

    def var(self, n):
        return self.rng.choice("$?") + n if n != "PATH" else "$PATH"

    def iri(self, s):
        for p, ns in self.rng.sample(self.prefixes, len(self.prefixes)):
            if s.startswith(ns) and re.fullmatch(r"[A-Za-z0-9]+", s[len(ns):]) and self.rng.random() < .8:
                return f"{p}:{s[len(ns):]}"
        return f"<{s}>"

    def term(self, t):
        if t[0] == "iri":
            return self.iri(t[1])
        if t[2] == "integer" and self.rng.random() < .7:
            return t[1]
        q = self.rng.choice(['"', "'", '"""', "'''"])
        return f"{q}{t[1]}{q}" + (f"@{t[3]}" if t[3] else "" if t[2] in ("string", "") else "^^" + self.iri(dtiri(t[2])))

    def op(self, x):
        return self.var(x[1]) if x[0] == "v" else self.term(x[1])

    def path(self, p, top=True):
        k = p["k"]
        if k == "p":
            return "a" if p["v"] == TYPE and self.rng.random() < .5 else self.iri(PNAMES[p["v"] - 1])
        if k in ("seq", "alt"):
            t = {"seq": "/", "alt": "|"}[k].join(self.path(x, False) for x in p["es"])
            return t if top else f"({t})"
        t = self.path(p["e"], False)
        return f"(^{t})" if k == "inv" else f"({t})" + {"star": "*", "plus": "+", "opt": "?"}[k]

    def expr(self, x):
        k, r = x["k"], self.rng
        if k in ("eq", "ne", "lt", "le"):
            return f"{self.op(x['a'])} {dict(eq='=', ne='!=', lt='<', le='<=')[k]} {self.op(x['b'])}"
        if k == "same":
            return f"sameTerm({self.op(x['a'])}, {self.op(x['b'])})"
        if k in ("iri", "blank", "lit", "bound"):
            return dict(iri="isIRI", blank="isBlank", lit="isLiteral", bound="BOUND")[k] + f"({self.op(x['a'])})"
        if k == "lang":
            return f"lang({self.op(x['a'])}) = \"{x['tag']}\""
        if k == "dt":
            return f"datatype({self.op(x['a'])}) = {self.iri(XSD + x['dt'])}"
        if k in ("exists", "nexists"):
            return ("NOT EXISTS " if k == "nexists" else "EXISTS ") + self.group(x["g"])
        es = [f"({self.expr(e)})" for e in x["es"]]
        return "!" + es[0] if k == "not" else f"{es[0]} {'&&' if k == 'and' else '||'} {es[1]}"

    def elem(self, x):
        k, r = x["k"], self.rng
        if k == "triple":
            p = "$PATH" if x.get("PATH") else self.var(x["p"][1]) if isinstance(x["p"], tuple) else self.path(x["p"])
            return f"{self.op(x['s'])} {p} {self.op(x['o'])} ."
        if k == "opt":
            return r.choice(["OPTIONAL ", "optional"]) + self.group(x["g"])
        if k == "minus":
            return r.choice(["MINUS ", "minus "]) + self.group(x["g"])
        if k == "union":
            return r.choice([" UNION ", " union "]).join(self.group(g) for g in x["gs"])
        if k == "group":
            return self.group(x["g"])
        if k == "bind":
            return f"BIND({self.op(x['a'])} AS {self.var(x['v'])})"
        if k == "values":
            if r.random() < .5:
                return f"{r.choice(['VALUES', 'values'])} {self.var(x['v'])} {{ " + " ".join(map(self.term, x["ns"])) + " }"
            return f"VALUES ({self.var(x['v'])}) {{ " + " ".join(f"({self.term(t)})" for t in x["ns"]) + " }"
        return "{" + self.ws() + self.select(x["vars"], x["g"]) + "}"

    def group(self, g):
        r = self.rng
        es = [self.elem(x) for x in g["ps"]]
        for f in g["fs"]:
            es.insert(r.randint(0, len(es)) if not any(x["k"] == "bind" for x in g["ps"]) else len(es), f"FILTER({self.expr(f)})" if f["k"] not in ("exists", "nexists") or r.random() < .5 else "FILTER " + self.expr(f))
        if r.random() < .1:
            es.insert(0, r.choice(['FILTER("where {" != "}")', "FILTER('''a { select''' != \"b\\\"{\")", "FILTER(1 < 2)", "FILTER(<http://e/{> != 1)" if False else "FILTER(2<3)"]))
        return "{" + self.ws() + self.ws().join(es) + self.ws() + "}"

    def select(self, vs, g, top=False):
        r = self.rng
        w = r.choice([" WHERE ", " WHERE ", " where ", " ", " Where\n"])
        return self.ws() + r.choice(["SELECT ", "SELECT ", "select "]) + (r.choice(["", "", "DISTINCT ", "REDUCED "]) if top else "") + " ".join(self.var(v) for v in vs) + w + self.group(g) + \
            (f" ORDER BY {self.var(vs[-1])}" if top and r.random() < .15 else "")

    def query(self, q):
        return self.select(q["vars"], q["g"], True).strip()


def enc_q(cs, q):
    """the query with terms replaced by their indexes"""
    def op(x):
        return {"k": "v", "v": x[1]} if x[0] == "v" else {"k": "c", "n": cs.n(x[1])}

    def ex(x):
        d = {"k": x["k"]}
        for f in "ab":
            if f in x:
                d[f] = op(x[f])
        if "tag" in x:
            d["tag"] = cp(x["tag"])
        if "dt" in x:
            d["dt"] = x["dt"]
        if "g" in x:
            d["g"] = gr(x["g"])
        if "es" in x:
            d["es"] = [ex(y) for y in x["es"]]
        return d

    def el(x):
        k = x["k"]
        if k == "triple":
            return {"k": k, "s": op(x["s"]), "p": {"k": "v", "v": x["p"][1]} if isinstance(x["p"], tuple) else x["p"], "o": op(x["o"])}
        if k == "union":
            return {"k": k, "gs": [gr(g) for g in x["gs"]]}
        if k == "bind":
            return {"k": k, "a": op(x["a"]), "v": x["v"]}
        if k == "values":
            return {"k": k, "v": x["v"], "ns": [cs.n(t) for t in x["ns"]]}
        d = {"k": k, "g": gr(x["g"])}
        if k == "select":
            d["vars"] = x["vars"]
        return d

    def gr(g):
        return {"ps": [el(x) for x in g["ps"]], "fs": [ex(x) for x in g["fs"]]}
    return {"vars": q["vars"], "g": gr(q["g"])}
