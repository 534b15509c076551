"""V01: the documents that show validation results."""
import csv, io, json, re
from . import core
from . import c_shacl as S
from .shaclgen import *
from .shexgen import E, Gen, shexc, ttl as sttl
from .c_shex import steps_for, pairs_of, failure, node_key

ANSI = re.compile(r"\x1b\[[0-9;]*m")
LANG = re.compile(r"^[a-zA-Z]{2,8}(-[a-zA-Z0-9]{2,8})*$")
BN = bn("x")[0]
SEVS = ("Violation", "Warning", "Info", "Debug", "Trace")
RDFS_OUT = ["turtle", "ntriples", "rdfxml", "trig", "n3", "nquads"]
SHACL_SORT = ["", "severity", "node", "component", "value", "path", "sourceshape", "details"]
SHEX_SORT = ["", "node", "shape", "status", "details"]


def table(text):
    """the rows of a box-drawn table (header first); continuation lines are joined to their row"""
    rows = []
    for line in ANSI.sub("", text).split("\n"):
        if line.startswith(("╭", "├", "╰")):
            rows.append(None)
        elif line.startswith("│"):
            cells = [x.strip() for x in line.strip().strip("│").split("│")]
            if rows and rows[-1] is not None:
                rows[-1] = [a + b for a, b in zip(rows[-1], cells)]
            else:
                rows.append(cells)
    return [r for r in rows if r]


def expand(x, prefixes):
    m = re.match(r"^([A-Za-z0-9]*):([^/<>\"]*)$", x)
    return f"<{prefixes[m[1]]}{m[2]}>" if m and m[1] in prefixes else x


def forms(t):
    """the ways to display a term, the unambiguous ones first"""
    if t[0] == "iri":
        return ["<" + t[1] + ">", t[1]]
    if t[0] == BN:
        return ["_:" + t[1]]
    q = '"' + t[1] + '"'
    if t[3]:
        return [q + "@" + t[3], q + "@" + t[3].lower()]
    dt = t[2] or "string"
    full = dt if "://" in dt else XSD + dt
    out = [q + "^^xsd:" + dt, q + "^^<" + full + ">"]
    return out + ([q] if dt == "string" else [t[1]])


class Names:
    """cells of a document -> names of terms; terms that are displayed alike get the same name"""

    def __init__(self, terms):
        self.by = {}
        for t in terms:
            fs = forms(t)
            name = next((self.by[f] for f in fs if f in self.by), fs[0])
            for f in fs:
                self.by.setdefault(f, name)

    def __call__(self, x):
        x = re.sub(r'(?<=")@[A-Za-z0-9-]+$', lambda m: m[0].lower(), x)
        return self.by.get(x, "?? " + x)


def complexpath(p):
    return "(" in p


def row(sev, node, comp, path, value, src):
    kind = lambda x: "literal" if x.startswith('"') else x
    return [sev, node, comp, path, value, src, kind(node), kind(value)]


def shacl_rows(cells, names):
    out = []
    for r in cells:
        sev, node, comp, path, value, src = r[:6]
        sev = sev.removeprefix("sh:").strip("<>")
        comp = comp.removeprefix("sh:").removesuffix("ConstraintComponent")
        p = path.strip("<>")
        out.append(row(sev, names(node), comp, "?" if not re.match(r"^[^()*+?^|\s]*$", p) else p, names(value) if value else "", names(src) if src else ""))
    return out


class Terms(dict):
    """numbers the terms it is asked for"""

    def get(self, t, default=None):
        return self.setdefault(t, len(self) + 1)


def shacl_base(step, names=None):
    """the rows of an RDF report in N-Triples; without names, those of its own terms are made and returned too"""
    terms = Terms()
    rep = read_report(step["ok"], terms)
    if rep["fail"]:
        return rep["fail"], [], False, names
    by = list(terms)
    srcs = [r[4] for r in rep["res"]]
    if names is None:
        names = Names(by + [iri(x) if not x.startswith("_:") else bn(x[2:]) for x in srcs if x])
    rows = []
    for f, p, v, comp, src, sev in rep["res"]:
        name = lambda i: names(forms(by[i - 1])[0]) if i else ""
        rows.append(row(sev, name(f), comp, "?" if complexpath(p) else p, name(v), names("<" + src + ">" if not src.startswith("_:") else src) if src else ""))
    return "", rows, rep["conforms"], names


def mentioned(nt):
    m, s = [], []
    for line in nt.split("\n"):
        x = NT.match(line)
        if x:
            if x[1].startswith("_:") and x[1] not in s:
                s.append(x[1])
            if x[2] in (SH + "focusNode", SH + "value", SH + "sourceShape") and x[3].startswith("_:") and x[3] not in m:
                m.append(x[3])
    return m, s


def digits(cs, rng, only=""):
    """data whose blank nodes have the labels that reports like to use"""
    ren = {"x1": rng.choice([x for x in ("1", "2", "b1", "bb2", "r1") if x[0] > only]), "x2": rng.choice([x for x in ("3", "4", "b2", "bb1", "0") if x[0] > only])}
    cs.nodes = [(BN, ren.get(t[1], t[1])) + tuple(t[2:]) if t[0] == BN and t[1] in ren else t for t in cs.nodes]
    cs.idx = {(BN, ren.get(t[1], t[1])) + tuple(t[2:]) if t[0] == BN and t[1] in ren else t: i for t, i in cs.idx.items()}
    return cs


def shacl_views(c, n):
    rng = c.rng
    gens = [S.h01_case, S.h04_case, S.h05_case, S.h02_case]
    cases, cmds = [], []
    for _ in range(n):
        cs = rng.choice(gens)(rng)
        while not all(LANG.match(t[3]) for t in cs.nodes if t[0] == "lit" and t[3]) or any("\n" in t[1] or "\r" in t[1] for t in cs.nodes):
            cs = rng.choice(gens)(rng)     # the RDF parsers disagree on odd language tags; tables show a line break as one
        fmt = rng.choice(RDFS_OUT)
        cs = digits(cs, rng, "A" if fmt == "rdfxml" else "")    # XML names cannot begin with a digit
        st = [{"op": "load_data", "data": cs.data_ttl(rng), "format": "turtle"}, {"op": "load_shacl", "shapes": cs.shapes_ttl(rng), "format": "turtle"},
              {"op": "validate_shacl", "mode": "native"}]
        views = []
        for f in ["minimal", fmt] + rng.choice([["compact"], ["details"], ["compact", "details"]]):
            views.append((f, rng.choice(SHACL_SORT)))
        for f, sort in views:
            o = {"op": "shacl_report", "report": f}
            if sort:
                o["sort"] = sort
            if f in RDFS_OUT:
                o["nt"] = True
                if rng.random() < .4:
                    o["parse"] = True
            st.append(o)
        cases.append((cs, views))
        cmds.append({"op": "script", "steps": st})
    ans = core.run_harness("h_lib", cmds)
    evs = []
    for (cs, views), a in zip(cases, ans):
        ev = {"k": "shacl", "fail": "", "base": [], "views": []}
        evs.append(ev)
        if "out" not in a or any("ok" not in s for s in a["out"][:3]):
            ev["fail"] = str(a)[:300]
            continue
        ev["fail"], ev["base"], conf, names = shacl_base(a["out"][2])
        if not ev["fail"] and conf != (not ev["base"]):
            ev["fail"] = "conforms is wrong"
        for (f, sort), s in zip(views, a["out"][3:]):
            v = {"f": f, "rdf": f in RDFS_OUT, "fail": "", "rows": [], "sort": sort or "severity", "conforms": False, "violations": 0, "warnings": 0, "mentioned": [], "subjects": []}
            ev["views"].append(v)
            if "ok" not in s:
                v["fail"] = str(s)[:300]
                continue
            try:
                read_shacl(v, s["ok"], names)
            except (ValueError, KeyError, IndexError) as x:
                v["fail"] = f"unreadable {x!r} {s['ok'][:300]}"
    return cmds, evs


def read_shacl(v, text, names):
    text = ANSI.sub("", text)
    if v["rdf"]:
        v["fail"], v["rows"], v["conforms"], _ = shacl_base({"ok": text}, names)
        v["mentioned"], v["subjects"] = mentioned(text)
    elif v["f"] == "minimal":
        m = re.match(r"^\s*Does not conform, (\d+) violations?, (\d+) warnings?", text)
        v["conforms"] = not m and bool(re.match(r"^\s*(Conforms|No Errors found)", text))
        if m:
            v["violations"], v["warnings"] = int(m[1]), int(m[2])
        elif not v["conforms"]:
            v["fail"] = "unreadable " + text[:200]
    else:
        t = table(text)
        if t:
            v["rows"] = shacl_rows(t[1:], names)
        elif "No Errors found" not in text:
            v["fail"] = "unreadable " + text[:200]


def shex_rows(cells, names, prefixes):
    return [[names(expand(r[0].strip(), prefixes)), r[1] if r[1] == "START" else expand(r[1], prefixes), r[2]] for r in cells]


def read_shex(v, text, names, prefixes):
    if v["f"] == "json":
        for x in json.loads(text):
            if x["appInfo"]["status"] != x["status"]:
                v["fail"] = "two statuses in " + str(x)[:200]
            v["rows"].append([names(x["node"]), x["shape"] if x["shape"] == "START" else "<" + x["shape"].strip("<>") + ">", x["status"]])
    else:
        cells = list(csv.reader(io.StringIO(ANSI.sub("", text).strip()))) if v["f"] == "csv" else table(text)
        if [x.lower() for x in cells[0][:3]] != ["node", "shape", "status"]:
            v["fail"] = "unreadable " + text[:200]
        v["rows"] = shex_rows(cells[1:], names, prefixes)


def shex_views(c, n):
    rng = c.rng
    cases, cmds = [], []
    for _ in range(n):
        gen = Gen(rng, labels=rng.choice([1, 2, 3]), preds=2)
        sch = gen.schema(0)
        g = gen.gen_graph(rng.choice([2, 4, 5]))
        pairs = pairs_of(sch, g, lits=rng.random() < .4)
        rng.shuffle(pairs)
        st = steps_for(sch, g, pairs, rng)
        prefixes = {}
        if rng.random() < .4:
            st[0]["data"] = "@prefix d: <http://e/> .\n" + st[0]["data"]
            prefixes["d"] = E
        if rng.random() < .4:
            st[1]["schema"] = "PREFIX s: <http://e/>\n" + st[1]["schema"]
            prefixes["s"] = E
        views = [(f, rng.choice(SHEX_SORT)) for f in rng.sample(["json", "csv", "compact", "details"], 2)]
        for f, sort in views:
            st.append({"op": "shex_report", "format": f, **({"sort": sort} if sort else {})})
        cases.append((g, views, prefixes))
        cmds.append({"steps": st})
    ans = core.run_harness("h_lib", cmds, timeout=20)
    evs = []
    for (g, views, prefixes), a in zip(cases, ans):
        ev = {"k": "shex", "fail": failure(a, 4), "base": [], "views": []}
        evs.append(ev)
        if ev["fail"]:
            continue
        names = Names(g.nodes)
        ev["base"] = [[names(n), l if l == "START" else "<" + l.strip("<>") + ">", st] for n, l, st in a["out"][3]["ok"]]
        for (f, sort), s in zip(views, a["out"][4:]):
            v = {"f": f, "rdf": False, "fail": "", "rows": [], "sort": sort or "node", "conforms": False, "violations": 0, "warnings": 0, "mentioned": [], "subjects": []}
            ev["views"].append(v)
            if "ok" not in s:
                v["fail"] = str(s)[:300]
                continue
            try:
                read_shex(v, s["ok"], names, prefixes)
            except (ValueError, KeyError, IndexError) as x:
                v["fail"] = f"unreadable {x!r} {s['ok'][:300]}"
    return cmds, evs


def v01(c):
    cmds, evs = shacl_views(c, c.pick(3000, 20000))
    c.validate("SHACL results", "ReportTrace", evs, replay=lambda i: cmds[i])
    cmds2, evs2 = shex_views(c, c.pick(3000, 20000))
    c.validate("ShEx results", "ReportTrace", evs2, replay=lambda i: cmds2[i])
    c.model("MCReport")
