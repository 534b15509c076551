"""C01: conversion of tabular application profiles to ShEx."""
import csv, io, json
from .core import run_harness
from .shexgen import *
from .c_shex import smap, verdicts

NOPAT = {"re": {"k": "eps"}, "start": False, "end": False, "ci": False, "ml": False, "flags": ""}
KINDS = {"iri": ["IRI", "iri", "URI", "Iri", "uri"], "bnode": ["BNODE", "bnode", "BNode"], "literal": ["LITERAL", "literal", "Literal"]}
YES = ["TRUE", "true", "True", "1", "yes", "YES", " TRUE "]
NO = ["FALSE", "false", "0", "no", "No", " false", ""]
HEADS = ["shapeID", "shapeLabel", "propertyID", "propertyLabel", "mandatory", "repeatable", "valueNodeType", "valueDataType",
         "valueConstraint", "valueConstraintType", "valueShape", "note", "extendsID", "extendsLabel", "severity"]


def row(p, **kw):
    r = {"p": p, "mand": "yes", "rep": "no", "kinds": [], "dts": [], "haspick": False, "pick": [], "haspat": False, "pat": NOPAT, "facets": [], "refs": []}
    r.update(kw)
    return r


def gen_row(rng, p, nshapes, nodes, cols):
    r = row(p, mand=rng.choice(["yes", "yes", "no", "no"]), rep=rng.choice(["yes", "no"]))
    x = rng.random()
    lits = [t for t in nodes if t[0] == "lit"]
    if x < .15:
        pass
    elif x < .35:
        r["kinds"] = rng.sample(["iri", "bnode", "literal"], rng.choice([1, 1, 1, 2, 2, 3]))
    elif x < .55:
        r["dts"] = rng.sample(["integer", "string", "decimal", "date", "boolean"], rng.choice([1, 1, 1, 2, 3]))
        if rng.random() < .4:
            r["kinds"] = rng.choice([["literal"], ["literal"], ["iri", "literal"]])
    elif x < .7:
        y = rng.random()
        k = rng.choice([1, 1, 2, 3])
        if y < .5:
            r["kinds"] = rng.choice([[], ["iri"], ["iri"], ["iri", "bnode"]])
            r["pick"] = [E + rng.choice(["n1", "n2", "n3", "n4", "v", "w"]) for _ in range(k)]
        else:
            if y < .75:
                r["kinds"] = ["literal"]
            else:
                r["dts"] = rng.sample(["integer", "string", "decimal"], rng.choice([1, 1, 2]))
                r["kinds"] = rng.choice([[], ["literal"]])
            r["pick"] = [rng.choice([rng.choice(lits)[1] if lits else "a", "a", "red", "b c", "1", "x:y"]) for _ in range(k)]
        r["haspick"] = True
    elif x < .8:
        r["kinds"] = rng.choice([["literal"], ["iri"]])
        if r["kinds"] == ["literal"] and rng.random() < .5:
            r["dts"] = [rng.choice(["string", "integer"])]
        r["haspat"], r["pat"] = True, gen_pat(rng, "ab1", 0)
    else:
        r["refs"] = sorted({rng.randint(1, nshapes) for _ in range(rng.choice([1, 1, 2]))})
        if rng.random() < .3:
            r["kinds"] = rng.choice([["iri"], ["iri", "bnode"], ["bnode"]])
    for col, key in (("mandatory", "mand"), ("repeatable", "rep")):
        if col not in cols:
            r[key] = "none"
    return r


class Names:
    """how names are written in the cells"""

    def __init__(self, rng):
        self.rng = rng
        self.base = rng.choice([None, E, E])
        self.al = {rng.choice(["e", "ex", "", "my-p"]): E, "xsd": XSD, "rdf": RDFNS}
        if rng.random() < .3:
            self.al["x2"] = E + "S"

        self.dbase = rng.choice([None, None, XSD])
        self.top = bool(self.base) and rng.random() < .2
        self.delim, self.quote, self.pick, self.vs = ",", '"', "|", " "
        if rng.random() < .3:
            self.delim = rng.choice([";", "\t", ","])
            self.quote = rng.choice(['"', "'"])
            self.pick = rng.choice(["|", "/", "~"])
            self.vs = rng.choice([" ", "|", "+"])

    def config(self):
        o = (f'base_iri = "{self.base}"\n' if self.top else "") + f"[tap]\ndelimiter = {json.dumps(self.delim)}\nquote = {json.dumps(self.quote)}\npicklist_delimiter = {json.dumps(self.pick)}\nvalue_shape_delimiter = {json.dumps(self.vs)}\n"
        o += "[tap2shex]\n" + (f'base_iri = "{self.base}"\n' if self.base and not self.top else "") + (f'datatype_base_iri = "{self.dbase}"\n' if self.dbase else "") + "[tap2shex.prefixmap]\n"
        return o + "".join(f'"{a}" = "{n}"\n' for a, n in self.al.items())

    def dt(self, t):
        return t if self.dbase and self.rng.random() < .5 else self.iri(XSD + t, False)

    def iri(self, i, bare=True):
        ways = [a + ":" + i[len(n):] for a, n in self.al.items() if i.startswith(n)]
        if bare and self.base and i.startswith(self.base):
            ways.append(i[len(self.base):])
        return self.rng.choice(ways)


def pad(rng, s):
    r = rng.random()
    return s if r < .85 else " " + s if r < .9 else s + " " if r < .95 else " " + s + "  "


def cells(rng, nm, r, nshapes, cols):
    d = {"propertyID": pad(rng, nm.iri(RDFNS + "type" if r["p"] == 7 else E + PREDS[r["p"] - 1]))}
    for col, key in (("mandatory", "mand"), ("repeatable", "rep")):
        if r[key] != "none":
            d[col] = rng.choice(YES if r[key] == "yes" else NO)
    d["valueNodeType"] = pad(rng, rng.choice([" ", " ", "  "]).join(rng.choice(KINDS[k]) for k in r["kinds"]))
    d["valueDataType"] = pad(rng, " ".join(nm.dt(t) for t in r["dts"]))
    if r["haspick"]:
        bare = not r["dts"] and set(r["kinds"]) <= {"iri", "bnode"}
        sep = rng.choice([nm.pick, nm.pick, " " + nm.pick + " "]) if bare else nm.pick
        d["valueConstraint"] = sep.join(nm.iri(v) if bare else v for v in r["pick"])
        d["valueConstraintType"] = rng.choice(["", "picklist", "PickList", " picklist"]) if "valueConstraintType" in cols else ""
    if r["haspat"]:
        d["valueConstraint"] = pat_text(r["pat"])
        d["valueConstraintType"] = rng.choice(["pattern", "Pattern", "PATTERN "])
    d["valueShape"] = pad(rng, rng.choice([" ", nm.vs, nm.vs + " ", " " + nm.vs + " "]).join(nm.iri(E + "S%d" % i) for i in r["refs"]))
    if rng.random() < .2:
        d["note"] = rng.choice(["a, note", 'say "x"', "n", "two\nlines"])
    if rng.random() < .3:
        d["propertyLabel"] = rng.choice(["label", "a, b", "l|m"])
    if rng.random() < .1:
        d["severity"] = "Warning"
    return d


def write(rng, nm, prof, order, cols):
    """CSV text; order: the shapes as they are written"""
    out = io.StringIO()
    w = csv.writer(out, delimiter=nm.delim, quotechar=nm.quote, quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL]), lineterminator=rng.choice(["\n", "\n", "\r\n"]))
    style = rng.choice([str, str, str.lower, str.upper])
    w.writerow([pad(rng, style(h)) for h in cols])
    flex = rng.random() < .3
    repeat = rng.random()

    def line(d, r=None):
        l = [d.get(h, "") for h in cols]
        if flex:
            while len(l) > 1 and l[-1] == "":
                l.pop()
            if r is not None:  # a line that ends before the column does not state it
                for col, key in (("mandatory", "mand"), ("repeatable", "rep")):
                    if col in cols[len(l):]:
                        r[key] = "none"
        w.writerow(l)
    # the rows of a shape may be interrupted by another shape
    pieces = [(i, prof[i]) for i in order]
    if len(order) > 1 and rng.random() < .15:
        k = rng.randrange(len(pieces))
        i, sh = pieces[k]
        m = rng.randint(0, len(sh["rows"]))
        pieces[k] = (i, {**sh, "rows": sh["rows"][:m]})
        pieces.insert(rng.randrange(k + 1, len(pieces) + 1), (i, {"rows": sh["rows"][m:], "ext": []}))
    for i, sh in pieces:
        first = {"shapeID": pad(rng, nm.iri(E + "S%d" % (i + 1)))}
        if rng.random() < .3:
            first["shapeLabel"] = rng.choice(["Label", "A, B"])
        if sh["ext"]:
            first["extendsID"] = nm.iri(E + "S%d" % sh["ext"][0])
            if rng.random() < .3:
                first["extendsLabel"] = "parent"
        rows = [(cells(rng, nm, r, len(prof), cols), r) for r in sh["rows"]]
        if rows and rng.random() < .75:
            d, r = rows.pop(0)
            line({**d, **first}, r)
        else:
            line(first)
        for d, r in rows:
            if rng.random() < .06:
                w.writerow([" " if rng.random() < .3 else "" for _ in cols])
            if rng.random() < repeat:
                d = {**d, "shapeID": first["shapeID"].strip()}
            line(d, r)
        if rng.random() < .1:
            w.writerow(["" for _ in cols])
    return out.getvalue()


def graph(rng, prof, nodes, targets):
    """a graph that satisfies most rows"""
    subj = [i + 1 for i, t in enumerate(nodes) if t[0] != "lit"]
    arcs = set()
    for s in subj:
        if rng.random() < .25:
            continue
        sh, seen = prof[rng.randrange(len(prof))], set()
        todo = [sh]
        while todo:
            x = todo.pop()
            todo += [prof[j - 1] for j in x["ext"]]
            for r in x["rows"]:
                if r["p"] in seen and rng.random() < .5:
                    continue
                seen.add(r["p"])
                good = [k + 1 for k, t in enumerate(nodes) if fits(t, r)] or [1]
                for _ in range(rng.choice([0, 1, 1, 1, 1, 2] if r["mand"] != "yes" else [1, 1, 1, 1, 2, 0] if r["rep"] != "yes" else [1, 2, 3])):
                    arcs.add((s, r["p"], rng.choice(good) if rng.random() < .85 else rng.randint(1, len(nodes))))
    arcs = sorted(arcs)
    rng.shuffle(arcs)
    return Graph(nodes, arcs[:14])


def fits(t, r):
    """a guess that makes conforming graphs likely; not an oracle"""
    if r["kinds"] and t[0] != "lit" and t[0] not in r["kinds"]:
        return False
    if r["dts"] and t[2] not in r["dts"]:
        return False
    if r["haspick"] and t[1] not in r["pick"]:
        return False
    return not r["refs"] or t[0] != "lit"


def case(rng):
    cols = [h for h in HEADS if h not in ("mandatory", "repeatable", "shapeLabel", "note", "severity", "extendsID", "extendsLabel", "propertyLabel")]
    cols += [h for h in ("mandatory", "repeatable") if rng.random() < .93]
    cols += [h for h in ("shapeLabel", "note", "severity", "propertyLabel") if rng.random() < .5]
    ext = rng.random() < .25
    if ext:
        cols += ["extendsID"] + (["extendsLabel"] if rng.random() < .5 else [])
    if rng.random() < .5:
        rng.shuffle(cols)
    else:
        cols.sort(key=HEADS.index)
    n = rng.choice([1, 1, 2, 2, 3])
    nodes = [iri(E + "n1"), iri(E + "n2")] + rng.sample([iri(E + "n3"), iri(E + "v"), bn("b1"), lit("1", "integer"), lit("2", "integer"), lit("a"), lit("red"),
                                                         lit("b", "", "en"), lit("x", "integer"), lit("1.5", "decimal"), lit("2020-01-01", "date"),
                                                         lit("1"), lit("b c"), lit("true", "boolean"), lit("x:y"), lit("ab1")], rng.choice([3, 4, 5, 6]))
    prof = []
    for i in range(n):
        ps = rng.sample([1, 2, 3, 4, 5, 7], rng.choice([0, 1, 1, 2, 2, 3]))
        if ps and rng.random() < .1:
            ps.append(rng.choice(ps))
        e = [rng.randint(1, i)] if ext and i and rng.random() < .6 else []
        if e:
            used, todo = set(), list(e)
            while todo:
                j = todo.pop()
                used |= {r["p"] for r in prof[j - 1]["rows"]}
                todo += prof[j - 1]["ext"]
            ps = [p for p in ps if p not in used]
        prof.append({"ext": e, "rows": [gen_row(rng, p, n, nodes, cols) for p in ps]})
    nm = Names(rng)
    order = list(range(n))
    rng.shuffle(order)
    return prof, nm, write(rng, nm, prof, order, cols), nodes


def enc_prof(prof):
    def er(r):
        return {**r, "facets": [enc_facet(f) for f in r["facets"]], "pick": [{"iri": cp(v), "s": cp(v)} for v in r["pick"]]}
    return [{"ext": s["ext"], "rows": [er(r) for r in s["rows"]]} for s in prof]


def run(c, part, cases, **kw):
    """cases: (profile, configuration, text, graphs with pairs, whether it has to be refused)"""
    rng = c.rng
    cmds1, fmts = [], []
    for prof, conf, text, gs, bad in cases:
        fmts.append(rng.choice(["shexc", "shexc", "shexj"]))
        cmds1.append({"config": conf, "steps": [{"op": "convert", "schema": text, "in_mode": "dctap", "out_mode": "shex", "in_format": "csv", "out_format": fmts[-1]}]})
    res = run_harness("h_lib", cmds1, timeout=20)
    cmds2 = []
    for (prof, conf, text, gs, bad), fmt, a in zip(cases, fmts, res):
        o = (a.get("out") or [{}])[0]
        st = [{"op": "load_shex", "schema": o.get("ok", "") or "", "format": fmt}]
        for g, pairs in gs:
            st += [{"op": "load_data", "data": g.turtle(rng), "format": "turtle", "merge": False},
                   {"op": "load_shapemap", "shapemap": smap(pairs, g.nodes)}, {"op": "validate_shex"}]
        cmds2.append({"steps": st} if "ok" in o else {"steps": []})
    res2 = run_harness("h_lib", cmds2, timeout=20)
    evs = []
    for (prof, conf, text, gs, bad), a, b in zip(cases, res, res2):
        o = (a.get("out") or [{}])[0]
        runs = []
        if "ok" in o:
            out = b.get("out") or []
            for j, (g, pairs) in enumerate(gs):
                s = out[3 + 3 * j] if len(out) > 3 + 3 * j else {}
                obs, f = verdicts(s["ok"], g.nodes, len(prof)) if "ok" in s else ([], "no verdict")
                runs.append({"g": g.enc(), "asked": [list(p) for p in pairs], "obs": obs, "fail": f})
        evs.append({"prof": enc_prof(prof), "bad": bad, "refused": "err" in o, "runs": runs})
    c.cov[part + " verdicts"] = sum(len(r["obs"]) for e in evs for r in e["runs"])
    c.cov[part + " conforming"] = sum(x[2] for e in evs for r in e["runs"] for x in r["obs"])
    c.validate(part, "DctapTrace", evs, replay=lambda i: {"convert": cmds1[i], "converted": res[i], "validate": cmds2[i]}, **kw)


def c01(c):
    rng = c.rng
    cases = []
    for k in range(c.pick(5000, 50000)):
        prof, nm, text, nodes = case(rng)
        gs = []
        for _ in range(4):
            g = graph(rng, prof, nodes, None)
            gs.append((g, [(i + 1, j + 1) for i, t in enumerate(nodes) if t[0] == "iri" for j in range(len(prof))]))
        cases.append((prof, nm.config(), text, gs, False))
    run(c, "profiles", cases)
    # entries that cannot be converted
    conf = "[tap2shex.prefixmap]\ne = \"http://e/\"\n"
    head = "shapeID,propertyID,mandatory,repeatable,valueNodeType,valueDataType,valueConstraint,valueConstraintType,valueShape\n"
    bad = ["e:S1,x:p,TRUE,FALSE,,,,,", "e:S1,e:p,maybe,FALSE,,,,,", "e:S1,e:p,TRUE,2,,,,,", "e:S1,e:p,TRUE,FALSE,NODE,,,,", "e:S1,e:p,TRUE,FALSE,,x:d,,,",
           "e:S1,e:p,TRUE,FALSE,IRI,,x:v,,", "e:S1,e:p,TRUE,FALSE,,,,,x:S1", "x:S1,e:p,TRUE,FALSE,,,,,", "S1,e:p,TRUE,FALSE,,,,,",
           "e:S1,p,TRUE,FALSE,,,,,", "e:S1,e:p,TRUE,FALSE,,integer,,,", "e:S1,e:p,TRUE,FALSE,IRI e,,,,"]
    ok = "e:S2,e:p,TRUE,FALSE,IRI,,,,\n"
    run(c, "unconvertible entries", [([], conf, head + t + b + "\n" + u, [], True) for b in bad for t in ("", ok) for u in ("", ok)])
    # kinds of value constraints that are read but not converted
    g = Graph([iri(E + "n1"), iri(E + "n2"), lit("5", "integer"), lit("ab")], [(1, 1, 3), (2, 1, 4)])
    for key, cell, fs in [("minlength", "3,minLength", [{"k": "minlength", "n": 3}]), ("maxinclusive", "3,maxInclusive", [{"k": "maxinclusive", "num": "3"}])]:
        run(c, "probe " + key, [([{"ext": [], "rows": [row(1, facets=fs)]}], conf, head + f"e:S1,e:p,TRUE,FALSE,,,{cell},\n", [(g, [(1, 1), (2, 1)])], False)],
            sig=lambda i, w: "constraint-type-ignored")
    c.model("MCDctap")
