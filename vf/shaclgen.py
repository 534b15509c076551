"""SHACL shapes graphs and data: random generation, printing as Turtle, encoding for the specification, reading reports."""
import re
from .ncgen import *

SH = "http://www.w3.org/ns/shacl#"
RDFS = "http://www.w3.org/2000/01/rdf-schema#"
PNAMES = [RDFNS + "type", RDFS + "subClassOf", E + "p", E + "q", E + "r", E + "s"]
TYPE, SUBC, P, Q, R_, S_ = 1, 2, 3, 4, 5, 6
KINDS = {"IRI": ["iri"], "BlankNode": ["bnode"], "Literal": ["lit"], "BlankNodeOrIRI": ["bnode", "iri"], "BlankNodeOrLiteral": ["bnode", "lit"],
         "IRIOrLiteral": ["iri", "lit"]}
SEVS = ["Violation", "Violation", "Warning", "Info"]


def pr(i):
    return {"k": "p", "v": i}


def path_ttl(p):
    k = p["k"]
    if k == "p":
        return f"<{PNAMES[p['v'] - 1]}>"
    if k == "seq":
        return "( " + " ".join(path_ttl(x) for x in p["es"]) + " )"
    if k == "alt":
        return "[ sh:alternativePath ( " + " ".join(path_ttl(x) for x in p["es"]) + " ) ]"
    n = {"inv": "inversePath", "star": "zeroOrMorePath", "plus": "oneOrMorePath", "opt": "zeroOrOnePath"}[k]
    return f"[ sh:{n} {path_ttl(p['e'])} ]"


def path_str(p):
    k = p["k"]
    if k == "p":
        return PNAMES[p["v"] - 1]
    if k in ("seq", "alt"):
        return k + "(" + ",".join(path_str(x) for x in p["es"]) + ")"
    return k + "(" + path_str(p["e"]) + ")"


def low_lang(t):
    return (t[0], t[1], t[2], t[3].lower()) if t[3] else t      # the same tag as in the data


class Case:
    """data arcs + shapes; terms are interned"""

    def __init__(self):
        self.nodes, self.idx, self.arcs, self.shapes, self.extra = [], {}, [], [], []

    def n(self, t):
        if t[3]:
            t = (t[0], t[1], t[2], t[3].lower())     # language tags are compared without case
        if t not in self.idx:
            self.nodes.append(t)
            self.idx[t] = len(self.nodes)
        return self.idx[t]

    def arc(self, s, p, o):
        a = (self.n(s), p, self.n(o))
        if a not in self.arcs:
            self.arcs.append(a)

    def shape(self, **kw):
        d = dict(node=True, path=None, off=False, sev="Violation", targets=[], ps=[], cs=[], bnode=False, typed=True, cls=False)
        d.update(kw)
        self.shapes.append(d)
        d["i"] = len(self.shapes)
        d["id"] = d.get("id") or (("bnode", "sx%d" % d["i"], "", "") if d["bnode"] else iri(E + "S%d" % d["i"]))
        return d["i"]

    # ---- printing
    def ref(self, i):
        return ttl(self.shapes[i - 1]["id"])

    def cons(self, c):
        k = c["k"]
        low = k[0].lower() + k[1:]
        if k == "Class":
            return [f"sh:class {ttl(c['t'])}"]
        if k == "Datatype":
            return [f"sh:datatype <{dtiri(c['dt'])}>"]
        if k == "NodeKind":
            return [f"sh:nodeKind sh:{c['nk']}"]
        if k in ("MinCount", "MaxCount", "MinLength", "MaxLength"):
            return [f"sh:{low} {c['n']}"]
        if k in ("MinExclusive", "MinInclusive", "MaxExclusive", "MaxInclusive"):
            return [f"sh:{low} {ttl(c['t'])}"]
        if k == "Pattern":
            return [f"sh:pattern {esc(pat_text(c['pat']))}"] + ([f'sh:flags "{c["pat"]["flags"]}"'] if c["pat"]["flags"] else [])
        if k == "LanguageIn":
            return ["sh:languageIn ( " + " ".join(esc(x) for x in c["l"]) + " )"]
        if k == "UniqueLang":
            return ["sh:uniqueLang " + ("true" if c["on"] else "false")]
        if k == "In":
            return ["sh:in ( " + " ".join(ttl(low_lang(x)) for x in c["ts"]) + " )"]
        if k == "HasValue":
            return [f"sh:hasValue {ttl(low_lang(c['t']))}"]
        if k in ("Equals", "Disjoint", "LessThan", "LessThanOrEquals"):
            return [f"sh:{low} <{PNAMES[c['p'] - 1]}>"]
        if k in ("And", "Or", "Xone"):
            return [f"sh:{low} ( " + " ".join(self.ref(x) for x in c["vs"]) + " )"]
        if k in ("Not", "Node"):
            return [f"sh:{low} {self.ref(c['v'])}"]
        if k == "Qualified":
            o = [f"sh:qualifiedValueShape {self.ref(c['v'])}"]
            o += [f"sh:qualifiedMinCount {c['min']}"] * (c["min"] >= 0) + [f"sh:qualifiedMaxCount {c['max']}"] * (c["max"] >= 0)
            return o + (["sh:qualifiedValueShapesDisjoint true"] if c["disj"] else [])
        if k == "Sparql":
            t = [f"sh:select {esc(c['text'])}"] + [f"sh:prefixes <{o}>" for o in c["onts"]] + (["sh:deactivated true"] if c["off"] else ["sh:deactivated false"] * c.get("on", False))
            return ["sh:sparql [ " + " ; ".join(t) + " ]"]
        if k == "Closed":
            return ["sh:closed true"] + (["sh:ignoredProperties ( " + " ".join(f"<{PNAMES[p-1]}>" for p in c["ignored"]) + " )"] if c["ignored"] else [])
        raise ValueError(k)

    def shapes_ttl(self, order=None):
        out = []
        for s in self.shapes:
            me = ttl(s["id"])
            po = []
            if s["typed"]:
                po.append("a sh:NodeShape" if s["node"] else "a sh:PropertyShape")
            if s["cls"]:
                po.append(f"a <{RDFS}Class>")
            if s["path"]:
                po.append("sh:path " + path_ttl(s["path"]))
            if s["off"]:
                po.append("sh:deactivated true")
            if s["sev"] != "Violation" or s.get("sevx"):
                po.append("sh:severity " + (f"sh:{s['sev']}" if s["sev"] in ("Violation", "Warning", "Info") else f"<{s['sev']}>"))
            for t in s["targets"]:
                if t["k"] == "node":
                    po.append("sh:targetNode " + ttl(t["t"]))
                elif t["k"] == "class":
                    po.append("sh:targetClass " + ttl(t["t"]))
                elif t["k"] in ("subj", "obj"):
                    po.append(f"sh:target{'Subjects' if t['k'] == 'subj' else 'Objects'}Of <{PNAMES[t['v']-1]}>")
            po += ["sh:property " + self.ref(q) for q in s["ps"]]
            for c in s["cs"]:
                po += self.cons(c)
            out += [f"{me} {x} ." for x in po]
        out += self.extra
        if order is not None:
            order.shuffle(out)
        return f"@prefix sh: <{SH}> .\n" + "\n".join(out) + "\n"

    def data_ttl(self, order=None):
        arcs = list(self.arcs)
        if order is not None:
            order.shuffle(arcs)
        return "".join(f"{ttl(self.nodes[s-1])} <{PNAMES[p-1]}> {ttl(self.nodes[o-1])} .\n" for s, p, o in arcs)

    # ---- encoding
    def enc_c(self, c):
        k = c["k"]
        if k == "Class":
            return {"k": k, "v": self.n(c["t"])}
        if k == "NodeKind":
            return {"k": k, "kinds": KINDS[c["nk"]]}
        if k in ("MinExclusive", "MinInclusive", "MaxExclusive", "MaxInclusive"):
            return {"k": k, "lit": enc(c["t"])}
        if k == "LanguageIn":
            return {"k": k, "langs": [cp(x) for x in c["l"]]}
        if k == "In":
            return {"k": k, "vs": [self.n(t) for t in c["ts"]]}
        if k == "HasValue":
            return {"k": k, "v": self.n(c["t"])}
        if k == "Sparql":
            return {"k": k, "off": c["off"], "q": c["enc"](self)}
        return c

    def enc(self):
        shapes = []
        for s in self.shapes:
            ts = [{"k": t["k"], "v": self.n(t["t"]) if "t" in t else t["v"]} for t in s["targets"]]
            if s["cls"]:
                ts.append({"k": "implicit", "v": self.n(s["id"])})
            shapes.append({"id": term_str(s["id"]), "node": s["node"], "path": s["path"] or {"k": "none", "v": 0}, "pstr": path_str(s["path"]) if s["path"] else "",
                           "off": s["off"], "sev": s["sev"], "targets": ts, "ps": s["ps"], "cs": [self.enc_c(c) for c in s["cs"]]})
        return {"arcs": [list(a) for a in self.arcs], "shapes": shapes, "pnames": PNAMES, "pnodes": self.pnodes(), "nodes": [enc(t) for t in self.nodes]}

    def pnodes(self):
        """the predicates as terms, where queries may bind variables to them"""
        return [self.n(iri(p)) for p in PNAMES] if any(c["k"] == "Sparql" for s in self.shapes for c in s["cs"]) else []

    def read(self, ans):
        """a report step -> {fail, conforms, res}"""
        if "ok" not in ans:
            return {"fail": str(ans)[:300], "conforms": False, "res": []}
        return read_report(ans["ok"], self.idx)


def term_str(t):
    return t[1] if t[0] == "iri" else "_:" + t[1]


NT = re.compile(r'^(<[^>]*>|_:\S+) <([^>]*)> (.+) \.$')
LIT = re.compile(r'^"((?:[^"\\]|\\.)*)"(?:@(\S+)|\^\^<([^>]*)>)?$', re.S)
UNESC = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", '"': '"', "\\": "\\", "'": "'"}


def unescape(s):
    return re.sub(r"\\(u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8}|.)", lambda m: UNESC.get(m[1]) or chr(int(m[1][1:], 16)), s, flags=re.S)


def nt_term(x):
    if x.startswith("<"):
        return iri(unescape(x[1:-1]))
    if x.startswith("_:"):
        return bn(x[2:])
    m = LIT.match(x)
    if not m:
        raise ValueError(x)
    s = unescape(m[1])
    if m[2]:
        return lit(s, "", m[2])
    dt = m[3] or XSD + "string"
    return lit(s, dt[len(XSD):] if dt.startswith(XSD) else dt)


def read_report(text, idx):
    g = {}
    for line in text.split("\n"):
        if line.strip():
            m = NT.match(line)
            if not m:
                return {"fail": "unreadable line " + line[:200], "conforms": False, "res": []}
            g.setdefault(m[1], {}).setdefault(m[2], []).append(m[3])

    def path(x):
        if x.startswith("<"):
            return x[1:-1]
        d = g.get(x, {})
        for n, k in (("inversePath", "inv"), ("zeroOrMorePath", "star"), ("oneOrMorePath", "plus"), ("zeroOrOnePath", "opt")):
            if SH + n in d:
                return k + "(" + path(d[SH + n][0]) + ")"
        if SH + "alternativePath" in d:
            return "alt(" + ",".join(lst(d[SH + "alternativePath"][0])) + ")"
        return "seq(" + ",".join(lst(x)) + ")"

    def lst(x):
        out = []
        while x != f"<{RDFNS}nil>":
            d = g[x]
            out.append(path(d[RDFNS + "first"][0]))
            x = d[RDFNS + "rest"][0]
        return out

    def node(x):
        t = nt_term(x)
        if t[0] == "lit" and t[3]:
            t = (t[0], t[1], "langString", t[3].lower())
        return idx.get(t, 10 ** 6)

    conf, res, fail = None, [], ""
    for s, d in g.items():
        if SH + "conforms" in d:
            conf = d[SH + "conforms"][0].startswith('"true"')
        ty = d.get(RDFNS + "type", [])
        if f"<{SH}ValidationResult>" in ty:
            def one(n, opt=False):
                v = d.get(SH + n, [])
                if len(v) > 1 or (not v and not opt):
                    raise ValueError(f"{n}: {v}")
                return v[0] if v else None
            try:
                v, p, c = one("value", True), one("resultPath", True), one("sourceConstraintComponent")
                src, sev = one("sourceShape", True) or "", one("resultSeverity")
                c = c[len(SH) + 1:-1]
                sev = sev[1:-1]
                res.append([node(one("focusNode")), path(p) if p else "", node(v) if v else 0, c[:-len("ConstraintComponent")] if c.endswith("ConstraintComponent") else c,
                            src[1:-1] if src.startswith("<") else src, sev[len(SH):] if sev.startswith(SH) else sev])
            except (ValueError, KeyError, IndexError) as ex:
                fail = f"bad result {ex} {d}"[:300]
    if conf is None:
        fail = "no report"
    return {"fail": fail, "conforms": bool(conf), "res": res}
