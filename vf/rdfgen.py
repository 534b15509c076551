"""RDF documents: graphs written in every concrete syntax, with the freedom that each syntax gives.
A graph is a list of triples of terms ("iri"|"bnode"|"lit", text, datatype, lang); anonymous nodes are ("anon", k)."""
import json, random, re

XSD = "http://www.w3.org/2001/XMLSchema#"
RDFNS = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"


def full_dt(t):
    if t[3]:
        return RDFNS + "langString"
    return XSD + t[2] if ":" not in t[2] else t[2]


def esc(s, rng=None):
    out = []
    for ch in s:
        if ch == "\\" or ch == '"':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif ord(ch) < 32 or ord(ch) == 127:
            out.append("\\u%04X" % ord(ch))
        elif rng and rng.random() < .05:
            out.append("\\U%08X" % ord(ch))
        else:
            out.append(ch)
    return '"' + "".join(out) + '"'


def nt(t, rng=None):
    if t[0] == "iri":
        return "<" + t[1] + ">"
    if t[0] == "bnode":
        return "_:" + t[1]
    if t[0] == "anon":
        return "_:anon%d" % t[1]
    if t[3]:
        return esc(t[1], rng) + "@" + t[3]
    if t[2] in ("string", ""):
        return esc(t[1], rng)
    return esc(t[1], rng) + "^^<" + full_dt(t) + ">"


def ntriples(g, rng, graph=""):
    lines = [f"{nt(s)} {nt(p)} {nt(o, rng)}{' ' + graph if graph and rng.random() < .5 else ''} ." for s, p, o in g]
    if rng.random() < .3:
        lines.insert(rng.randrange(len(lines) + 1), "# a comment")
    return "\n".join(lines) + "\n"


LOCAL = re.compile(r"^[A-Za-z][A-Za-z0-9]*$")


def turtle(g, rng, prefixes=None, base=None, declare=True):
    """prefixes: alias -> namespace used for abbreviations; declared in the text unless declare is False"""
    prefixes = prefixes if prefixes is not None else {"": "http://e/", "xsd": XSD}

    def iri(x, pred=False):
        if pred and x == RDFNS + "type" and rng.random() < .7:
            return "a"
        if base and x.startswith(base) and LOCAL.match(x[len(base):]) and rng.random() < .4:
            return "<" + x[len(base):] + ">"
        for a, ns in prefixes.items():
            if x.startswith(ns) and LOCAL.match(x[len(ns):]) and rng.random() < .7:
                return a + ":" + x[len(ns):]
        return "<" + x + ">"

    def term(t, pred=False):
        if t[0] == "iri":
            return iri(t[1], pred)
        if t[0] == "lit":
            if t[3]:
                return esc(t[1], rng) + "@" + t[3]
            if t[2] == "integer" and re.fullmatch(r"[-+]?\d+", t[1]) and rng.random() < .5:
                return t[1]
            if t[2] == "boolean" and t[1] in ("true", "false") and rng.random() < .5:
                return t[1]
            if t[2] in ("string", ""):
                if '"""' not in t[1] and not t[1].endswith('"') and "\\" not in t[1] and "\r" not in t[1] and rng.random() < .2:
                    return '"""' + t[1] + '"""'
                return esc(t[1], rng)
            return esc(t[1], rng) + "^^" + iri(full_dt(t))
        return nt(t)
    # anonymous nodes that are objects once or subjects only may be written as property lists
    used = {}
    for s, p, o in g:
        if o[0] == "anon":
            used[o] = used.get(o, 0) + 1
    out, done = [], set()

    def plist(s, seen):
        items = [(p, o) for x, p, o in g if x == s]
        done.add(s)
        return " ; ".join(term(p, True) + " " + obj(o, seen) for p, o in items)

    def obj(o, seen):
        if o[0] == "anon" and used.get(o) == 1 and o not in seen and o not in done:
            inner = plist(o, seen | {o})
            return "[ " + inner + " ]"
        return term(o)
    if declare:
        for a, ns in prefixes.items():
            out.append(f"@prefix {a}: <{ns}> ." if rng.random() < .7 else f"PREFIX {a}: <{ns}>")
    # objects that are nested are found first from their referring subjects; the others stand alone
    order = []
    for s, _, _ in g:
        if s not in order:
            order.append(s)
    order.sort(key=lambda s: s[0] == "anon" and used.get(s, 0) == 1)
    for s in order:
        if s in done:
            continue
        if s[0] == "anon" and not used.get(s):
            out.append("[ " + plist(s, {s}) + " ] .")
            continue
        if rng.random() < .4:
            for x, p, o in g:
                if x == s:
                    out.append(f"{term(s)} {term(p, True)} {obj(o, {s})} .")
            done.add(s)
        else:
            out.append(term(s) + " " + plist(s, {s}) + " .")
    return "\n".join(out) + "\n"


def trig(g, rng, base=None):
    if rng.random() < .3 and len(g) > 1:   # some of the triples in a named graph
        k = rng.randrange(len(g))
        named = g[k:]
        if not any(x[0] == "anon" for t in g for x in t):
            return turtle(g[:k], rng, base=base) + "<http://e/graph> {\n" + turtle(named, rng, base=base, declare=False) + "}\n"
    return turtle(g, rng, base=base)


def n3(g, rng, base=None):
    return turtle(g, rng, base=base)


def rel(x, base, rng):
    return x[len(base):] if base and x.startswith(base) and LOCAL.match(x[len(base):]) and rng.random() < .5 else x


def xesc(s):
    return "".join("&#%d;" % ord(c) if c in "<>&\"'\n\r\t" else c for c in s)


def rdfxml(g, rng, base=None):
    out = ['<?xml version="1.0" encoding="UTF-8"?>', f'<rdf:RDF xmlns:rdf="{RDFNS}">']
    for s, p, o in g:
        k = max(p[1].rfind("/"), p[1].rfind("#")) + 1
        ns, loc = p[1][:k], p[1][k:]
        sa = f'rdf:about="{xesc(rel(s[1], base, rng))}"' if s[0] == "iri" else f'rdf:nodeID="{s[1] if s[0] == "bnode" else "anon%d" % s[1]}"'
        if o[0] == "iri":
            pe = f'<x:{loc} xmlns:x="{xesc(ns)}" rdf:resource="{xesc(rel(o[1], base, rng))}"/>'
        elif o[0] in ("bnode", "anon"):
            pe = f'<x:{loc} xmlns:x="{xesc(ns)}" rdf:nodeID="{o[1] if o[0] == "bnode" else "anon%d" % o[1]}"/>'
        else:
            a = f' xml:lang="{o[3]}"' if o[3] else "" if o[2] in ("string", "") else f' rdf:datatype="{xesc(full_dt(o))}"'
            pe = f'<x:{loc} xmlns:x="{xesc(ns)}"{a}>{xesc(o[1])}</x:{loc}>'
        out.append(f"<rdf:Description {sa}>{pe}</rdf:Description>")
    out.append("</rdf:RDF>")
    return "\n".join(out) + "\n"


def jsonld(g, rng, base=None):
    def node(t, ty=False):
        return (t[1] if ty else rel(t[1], base, rng)) if t[0] == "iri" else "_:" + (t[1] if t[0] == "bnode" else "anon%d" % t[1])
    subs = {}
    for s, p, o in g:
        i = node(s)
        d = subs.setdefault(i, {"@id": i})
        if p[1] == RDFNS + "type" and o[0] != "lit" and rng.random() < .7:
            d.setdefault("@type", []).append(node(o, True))
        elif o[0] != "lit":
            d.setdefault(p[1], []).append({"@id": node(o)})
        elif o[3]:
            d.setdefault(p[1], []).append({"@value": o[1], "@language": o[3]})
        elif o[2] in ("string", ""):
            d.setdefault(p[1], []).append({"@value": o[1]} if rng.random() < .5 else o[1])
        else:
            d.setdefault(p[1], []).append({"@value": o[1], "@type": full_dt(o)})
    return json.dumps(list(subs.values()))


FORMATS = {"turtle": turtle, "ntriples": ntriples, "rdfxml": rdfxml, "jsonld": jsonld, "nquads": ntriples, "trig": trig, "n3": n3}


def write(g, fmt, rng, **kw):
    if fmt == "nquads":
        return ntriples(g, rng, graph="<http://e/graph>")
    return FORMATS[fmt](g, rng, **kw)
