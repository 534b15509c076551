"""ShEx schemas and graphs: random generation, printing as ShExC / Turtle, encoding for the specification."""
XSD = "http://www.w3.org/2001/XMLSchema#"
RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
E = "http://e/"


def cp(s):
    return [ord(c) for c in s]


# ------------------------------------------------------------------ terms: python tuples
def iri(s):
    return ("iri", s, "", "")


def bn(s):
    return ("bnode", s, "", "")


def lit(s, dt="string", lang=""):
    return ("lit", s, "langString" if lang else dt, lang)


def enc(t):
    return {"t": t[0], "s": cp(t[1]), "dt": t[2], "lang": cp(t[3])}


def dtiri(dt):
    return RDFNS + dt if dt == "langString" else dt if ":" in dt else XSD + dt


def esc(s):
    out = ""
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\r":
            out += "\\r"
        elif c == "\t":
            out += "\\t"
        else:
            out += c
    return '"' + out + '"'


def ttl(t):
    k, s, dt, lang = t
    if k == "iri":
        return f"<{s}>"
    if k == "bnode":
        return "_:" + s
    if lang:
        return esc(s) + "@" + lang
    if dt == "string":
        return esc(s)
    return f"{esc(s)}^^<{dtiri(dt)}>"


PREDS = ["p", "q", "r", "s", "t", "u"]


def pred(i):
    if i == 7:
        return f"<{RDFNS}type>"
    return f"<{E}{PREDS[i - 1]}>"


class Graph:
    def __init__(self, nodes, arcs):
        self.nodes, self.arcs = nodes, arcs

    def turtle(self, order=None):
        arcs = list(self.arcs)
        if order is not None:
            order.shuffle(arcs)
        return "\n".join(f"{ttl(self.nodes[s-1])} {pred(p)} {ttl(self.nodes[o-1])} ." for s, p, o in arcs) + "\n"

    def enc(self):
        return {"nodes": [enc(t) for t in self.nodes], "arcs": [list(a) for a in self.arcs]}

    def js(self):
        return {"turtle": self.turtle()}


# ------------------------------------------------------------------ printing
def card(c):
    m, n = c
    return {(1, 1): "", (0, 1): "?", (0, -1): "*", (1, -1): "+"}.get((m, n)) if (m, n) in ((1, 1), (0, 1), (0, -1), (1, -1)) else \
        (f"{{{m}}}" if m == n else f"{{{m},{'' if n == -1 else n}}}")


def p_facet(f):
    k = f["k"]
    if k == "pattern":
        return "/" + pat_text(f["pat"]).replace("/", "\\/") + "/" + f["pat"]["flags"]
    if k in ("length", "minlength", "maxlength", "totaldigits", "fractiondigits"):
        return f"{k.upper()} {f['n']}"
    return f"{k.upper()} {f['num']}"


def p_val(v):
    if v["k"] == "obj":
        return ttl(v["t"])
    if v["k"] == "lang":
        return "@" + v["s"]
    ex = ""
    for x in v["excl"]:
        b = {"iri": f"<{x['s']}>", "lit": esc(x["s"]), "lang": "@" + x["s"]}[v["kind"]]
        ex += " - " + b + ("~" if x["stem"] else "")
    if v["wild"]:
        return "." + ex
    b = {"iri": f"<{v['s']}>", "lit": esc(v["s"]), "lang": "@" + v["s"]}[v["kind"]]
    return b + "~" + ex


def p_nc(e):
    out = []
    if e["kind"]:
        out.append(e["kind"].upper())
    if e["dt"]:
        out.append(f"<{dtiri(e['dt'])}>")
    if e["hasvals"]:
        out.append("[ " + " ".join(p_val(v) for v in e["vals"]) + " ]")
    out += [p_facet(f) for f in e["facets"]]
    return " ".join(out) if out else "."


def p_acts(tc):
    """Map actions: tc["acts"] are keys, tc["actform"] how each is written"""
    return "".join(f" %{'Map:' if f % 2 else '<http://shex.io/extensions/Map/>'}{{ {(':' + 'k%d' % k) if f >= 2 else '<' + E + 'k%d' % k + '>'} %}}"
                   for k, f in zip(tc.get("acts", ()), tc.get("actform", ())))


def p_te(te, tcs, outer=""):
    k = te["k"]
    if k == "empty":
        return "()"
    if k == "sym":
        tc = tcs[te["v"] - 1]
        return f"{'^' if tc['inv'] else ''}{pred(tc['p'])} {p_se(tc['ve'], True)} {card((te['min'], te['max']))}".rstrip() + p_acts(tc)
    if k in ("and", "or"):
        r = (" ; " if k == "and" else " | ").join(p_te(x, tcs, k) for x in te["es"])
        return r if outer in ("", "or") and (k, outer) != ("or", "or") else "( " + r + " )"
    if k == "rep":
        return "( " + p_te(te["e"], tcs) + " )" + card((te["min"], te["max"]))
    raise ValueError(k)


def label(i):
    return f"<{E}S{i}>"


def p_shape(e):
    s = ""
    for x in e["ext"]:
        s += f"EXTENDS @{label(x)} "
    if e["extra"]:
        s += "EXTRA " + " ".join(pred(p) for p in e["extra"]) + " "
    if e["closed"]:
        s += "CLOSED "
    te = e["te"]
    if te["k"] == "empty":
        return s + "{ }"
    return s + "{ " + p_te(te, e["tcs"]) + " }"


def p_se(e, inner=False):
    k = e["k"]
    if k == "any":
        return "."
    if k == "ref":
        return f"@{label(e['i'])}"
    if k == "nc":
        return p_nc(e)
    if k == "shape":
        return p_shape(e)
    if k == "not":
        r = "NOT " + p_se(e["e"], True)
    else:
        r = (" AND " if k == "and" else " OR ").join(p_se(x, True) for x in e["es"])
    return f"({r})" if inner else r


def shexc(sch, order=None, start=None):
    idx = list(range(len(sch)))
    if order is not None:
        order.shuffle(idx)
    out = []
    if start is not None:
        out.append("start = " + p_se(start))
    for i in idx:
        d = sch[i]
        out.append(("ABSTRACT " if d["abs"] else "") + label(i + 1) + " " + p_se(d["e"]))
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ encoding for the specification
def enc_facet(f):
    d = {"k": f["k"], "n": f.get("n", 0), "num": cp(f.get("num", "0"))}
    if f["k"] == "pattern":
        d["pat"] = f["pat"]
    return d


def enc_val(v):
    if v["k"] == "obj":
        return {"k": "obj", "t": enc(v["t"])}
    if v["k"] == "lang":
        return {"k": "lang", "s": cp(v["s"])}
    return {"k": "stem", "kind": v["kind"], "wild": v["wild"], "s": cp(v["s"]),
            "excl": [{"stem": x["stem"], "s": cp(x["s"])} for x in v["excl"]]}


def enc_se(e):
    k = e["k"]
    if k in ("and", "or"):
        return {"k": k, "es": [enc_se(x) for x in e["es"]]}
    if k == "not":
        return {"k": k, "e": enc_se(e["e"])}
    if k == "nc":
        return {"k": k, "kind": e["kind"], "dt": e["dt"], "facets": [enc_facet(f) for f in e["facets"]], "hasvals": e["hasvals"],
                "vals": [enc_val(v) for v in e["vals"]]}
    if k == "shape":
        return {"k": k, "closed": e["closed"], "extra": e["extra"], "ext": e["ext"], "te": e["te"],
                "tcs": [{"p": t["p"], "inv": t["inv"], "ve": enc_se(t["ve"]), **({"acts": t["acts"]} if "acts" in t else {})} for t in e["tcs"]]}
    return dict(e)


def enc_schema(sch):
    return {"shapes": [{"abs": d["abs"], "e": enc_se(d["e"])} for d in sch]}


# ------------------------------------------------------------------ regular expressions
def cls(*rs, neg=False):
    return {"k": "cls", "any": False, "all": False, "neg": neg, "rs": [[ord(a), ord(b)] for a, b in rs]}


ANYC = {"k": "cls", "any": True, "all": False, "neg": False, "rs": []}
ANYNL = {**ANYC, "all": True}       # with the flag s


def re_text(r, sp=""):
    k = r["k"]
    if k == "eps":
        return ""
    if k == "cls":
        if r["any"]:
            return "."
        if len(r["rs"]) == 1 and r["rs"][0][0] == r["rs"][0][1] and not r["neg"]:
            c = chr(r["rs"][0][0])
            return c if c.isalnum() or c in " :/@" or ord(c) > 127 else "\\" + c
        return "[" + ("^" if r["neg"] else "") + "".join(chr(a) if a == b else chr(a) + "-" + chr(b) for a, b in r["rs"]) + "]"
    if k == "cat":
        return re_text(r["a"], sp) + sp + re_text(r["b"], sp)
    if k == "alt":
        return "(" + re_text(r["a"], sp) + "|" + re_text(r["b"], sp) + ")"
    g = re_text(r["a"], sp)
    if r["a"]["k"] != "cls":
        g = "(" + g + ")"
    return g + {"star": "*", "plus": "+", "opt": "?"}[k]


def pat_text(p):
    if "q" in p["flags"]:
        return p["raw"]
    sp = " " if "x" in p["flags"] else ""
    return ("^" + sp if p["start"] else "") + re_text(p["re"], sp) + (sp + "$" if p["end"] else "")


def seqc(s):
    out = {"k": "eps"}
    for ch in reversed(s):
        out = {"k": "cat", "a": cls((ch, ch)), "b": out}
    return out


def dotall(r):
    return ANYNL if r == ANYC else {k: dotall(v) if isinstance(v, dict) else v for k, v in r.items()}


def gen_re(rng, d, alphabet="ab1"):
    r = rng.random()
    if d == 0 or r < .3:
        x = rng.random()
        if x < .1:
            return ANYC
        if x < .3:
            return cls(("a", "c"), neg=rng.random() < .3)
        if x < .4:
            return cls(("0", "9"))
        c = rng.choice(alphabet)
        return cls((c, c))
    k = rng.choice(["cat", "cat", "alt", "star", "plus", "opt"])
    if k in ("cat", "alt"):
        return {"k": k, "a": gen_re(rng, d - 1, alphabet), "b": gen_re(rng, d - 1, alphabet)}
    return {"k": k, "a": gen_re(rng, d - 1, alphabet)}


def gen_pat(rng, alphabet="ab1", ci=.15, flags=""):
    """flags: those to use beside i"""
    fl = ["i"] * (rng.random() < ci) + [f for f in flags if rng.random() < .13]
    rng.shuffle(fl)
    p = {"re": gen_re(rng, rng.choice([1, 2, 3]), alphabet), "start": rng.random() < .5, "end": rng.random() < .5, "ci": "i" in fl, "ml": "m" in fl}
    if "s" in fl:
        if rng.random() < .5:
            p["re"] = {"k": "cat", "a": p["re"], "b": {"k": "cat", "a": ANYC, "b": gen_re(rng, 1, alphabet)}}
        p["re"] = dotall(p["re"])
    if "q" in fl:
        fl = [f for f in fl if f in "qi"]
        p["raw"] = "".join(rng.choice("a1.*+(b[^$") for _ in range(rng.choice([1, 2, 3])))
        p.update(re=seqc(p["raw"]), start=False, end=False, ml=False)
    p["flags"] = "".join(fl)
    return p


def pat_vals(rng, p):
    """a string for a pattern whose flags are about lines or metacharacters"""
    if "q" in p["flags"]:
        return rng.choice(["", "a", "x"]) + rng.choice([p["raw"], p["raw"], p["raw"].swapcase(), p["raw"][:-1]]) + rng.choice(["", "b"])
    return rng.choice(["a", "b1", "", "ab", "1\n"]) + "\n" + rng.choice(["a", "b", "1", "ab1"])


# ------------------------------------------------------------------ generation
def nc(kind="", dt="", facets=(), vals=None):
    return {"k": "nc", "kind": kind, "dt": dt, "facets": list(facets), "hasvals": vals is not None, "vals": list(vals or [])}


ANY = {"k": "any"}
TC_CARDS = [(1, 1)] * 5 + [(0, 1)] * 3 + [(0, -1)] * 3 + [(1, -1)] * 2 + [(2, 2), (1, 2), (2, 3), (0, 0), (2, -1), (0, 2)]
GR_CARDS = [(1, 1)] * 3 + [(0, 1), (0, -1), (1, -1), (2, 2), (1, 2), (0, 2), (2, -1), (0, 0)]


class Gen:
    """features: refs, logic, extra, closed, inv, groups, negref"""

    def __init__(self, rng, labels=1, preds=3, nodes=None, refs=False, logic=False, neg=False, extra=.3, closed=.3, inv=.12,
                 groups=.6, maxtc=4, extends=False, nots=True):
        self.rng, self.labels, self.preds = rng, labels, preds
        self.refs, self.logic, self.neg, self.extra, self.closed, self.inv, self.groups, self.maxtc = \
            refs, logic, neg, extra, closed, inv, groups, maxtc
        self.nodes = nodes or self.gen_nodes()
        self.nots, self.extends = nots, extends

    def gen_nodes(self):
        pool = [iri(E + "n%d" % i) for i in range(1, 5)] + [lit("1", "integer"), lit("2", "integer"), lit("a"), lit("b", "", "en"),
                                                          lit("x", "integer"), bn("b1"), bn("b2"), lit("1.5", "decimal")]
        k = self.rng.choice([3, 4, 5])
        return pool[:2] + self.rng.sample(pool[2:], k - 2)

    def gen_graph(self, maxarcs=6):
        n = len(self.nodes)
        subj = [i + 1 for i, t in enumerate(self.nodes) if t[0] != "lit"]
        k = self.rng.randint(0, maxarcs)
        arcs = set()
        for _ in range(k):
            arcs.add((self.rng.choice(subj if self.rng.random() < .4 else subj[:2]), self.rng.randint(1, self.preds), self.rng.randint(1, n)))
        arcs = sorted(arcs)
        self.rng.shuffle(arcs)
        return Graph(self.nodes, arcs)

    def simple_nc(self):
        r, rng = self.rng.random(), self.rng
        if r < .3:
            return nc(kind=rng.choice(["iri", "bnode", "literal", "nonliteral"]))
        if r < .5:
            return nc(dt=rng.choice(["integer", "string", "decimal"]))
        vals = rng.sample([t for t in self.nodes if t[0] != "bnode" and t[1] != "x"], min(rng.choice([1, 1, 2]), 2))
        return nc(vals=[{"k": "obj", "t": t} for t in vals])

    def ve(self, d):
        r, rng = self.rng.random(), self.rng
        if self.refs and r < .5:
            x = {"k": "ref", "i": rng.randint(1, self.labels)}
            if self.neg and rng.random() < .2:
                return {"k": "not", "e": x}
            return x
        if d > 0 and r < .6:
            return self.shape(d - 1)
        if self.logic and d > 0 and r < .7:
            return self.se(d - 1)
        if rng.random() < .35:
            return ANY
        return self.simple_nc()

    def te(self, d, n):
        """a triple expression using up to n triple constraints appended to self.cur"""
        rng = self.rng
        if d == 0 or n == 1 or rng.random() < .25:
            self.cur.append({"p": rng.randint(1, self.preds), "inv": rng.random() < self.inv, "ve": None})
            c = rng.choice(TC_CARDS)
            return {"k": "sym", "v": len(self.cur), "min": c[0], "max": c[1]}
        k = rng.choice(["and", "and", "or"])
        m = rng.choice([2, 2, 3]) if n > 2 else 2
        e = {"k": k, "es": [self.te(d - 1, max(1, n // m)) for _ in range(m)]}
        if rng.random() < self.groups * .4:
            c = rng.choice(GR_CARDS)
            if c != (1, 1):
                e = {"k": "rep", "e": e, "min": c[0], "max": c[1]}
        return e

    def shape(self, d, ext=()):
        rng = self.rng
        if rng.random() < .05:
            return {"k": "shape", "closed": rng.random() < self.closed, "extra": [], "ext": list(ext), "te": {"k": "empty"}, "tcs": []}
        save = getattr(self, "cur", None)
        self.cur = []
        te = self.te(2, self.maxtc)
        tcs = self.cur
        self.cur = save
        for t in tcs:
            t["ve"] = self.ve(d)
        extra = sorted({rng.randint(1, self.preds) for _ in range(rng.choice([1, 1, 2]))}) if rng.random() < self.extra else []
        return {"k": "shape", "closed": rng.random() < self.closed, "extra": extra, "ext": list(ext), "te": te, "tcs": tcs}

    def se(self, d):
        rng = self.rng
        r = rng.random()
        if not self.logic or d == 0 or r < .35:
            if rng.random() < .2 and self.logic:
                return self.simple_nc()
            if rng.random() < .25 and self.refs:
                return {"k": "ref", "i": rng.randint(1, self.labels)}
            return self.shape(1 if rng.random() < .3 else 0)
        k = rng.choice(["and", "or", "not"] if self.nots else ["and", "or"])
        if k == "not":
            return {"k": "not", "e": self.se(d - 1)}
        return {"k": k, "es": [self.se(d - 1) for _ in range(rng.choice([2, 2, 3]))]}

    def schema(self, d=2):
        out = [{"abs": False, "e": self.se(d)} for _ in range(self.labels)]
        if self.extends:  # acyclic: later shapes extend earlier ones
            for i, x in enumerate(out):
                if i and x["e"]["k"] == "shape" and self.rng.random() < .6:
                    x["e"]["ext"] = [self.rng.randint(1, i)]
        return out
