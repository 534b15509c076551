"""K01: property graph types."""
import csv, io, json
csv.field_size_limit(1 << 30)
from .core import run_harness
from .c_prefix import cps
from .shexgen import gen_pat, pat_text

LABELS = ["A", "B", "C", "a"]
KEYS = ["x", "y", "z", "X"]
STRS = ["", "a", "b", "ab", "aab", "b1", "1", "a b", "é", "//a", "a /* b", "TRUE"]


def value(rng, t=None):
    t = t or rng.choice("siidb")
    if t == "s":
        return {"t": "s", "i": 0, "s": cps(rng.choice(STRS))}
    if t == "i":
        return {"t": "i", "i": rng.choice([0, 1, 2, 3, 4, 5, 9, 10, 18, 2147483647]), "s": []}
    if t == "b":
        return {"t": "b", "i": rng.choice([0, 1]), "s": []}
    return {"t": "d", "i": rng.choice([20200101, 20200102, 20191231, 20201231, 19991201, 20240229, 9990101, 20200110]), "s": []}


def cond(rng, d, t):
    r = rng.random()
    if d == 0 or r < .5:
        k = rng.choice(["true", "false", "eq", "eq", "gt", "ge", "lt", "le", "gt", "ge", "lt", "le", "regex", "regex"])
        if k == "regex":
            if t not in (None, "s") and rng.random() < .8:
                return cond(rng, 0, t)
            p = gen_pat(rng, "ab1")
            return {"k": k, "pat": p, "text": ("(?i)" if p["ci"] else "") + pat_text(p)}
        if k in ("true", "false"):
            return {"k": k}
        if k != "eq" and t in ("s", "b") and rng.random() < .8:
            return cond(rng, 0, t)
        return {"k": k, "v": value(rng, t if rng.random() < .85 else None)}
    if r < .65:
        return {"k": "not", "a": cond(rng, d - 1, t)}
    return {"k": rng.choice(["and", "or"]), "a": cond(rng, d - 1, t), "b": cond(rng, d - 1, t)}


CARDS = [(1, 1, True)] * 4 + [(0, 1, True), (0, -1, True), (1, -1, True), (2, 3, False), (0, 0, False), (2, -1, False), (1, 2, False), (0, 1, False), (3, 3, False)]


def simple(rng):
    r = rng.random()
    if r < .12:
        return {"k": "any"}
    if r < .2:
        return {"k": "cond", "c": cond(rng, 2, None)}
    if r < .25:
        return {"k": "inter", "a": {"k": "any"}, "b": {"k": "cond", "c": cond(rng, 1, None)}, "checked": True}
    t = rng.choice("siidb")
    mn, mx, nm = rng.choice(CARDS)
    p = {"k": "prim", "t": t, "min": mn, "max": mx, "named": nm}
    if rng.random() < .35:
        return {"k": "inter", "a": p, "b": {"k": "cond", "c": cond(rng, 2, t)}, "checked": True}
    return p


def ptype(rng, adt):
    t = simple(rng)
    if rng.random() < .25:
        op = rng.choice(["inter", "union", "union"])
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = {"k": op, "a": t, "b": simple(rng), "checked": False}
            if adt and rng.random() < .4:
                op = rng.choice(["inter", "union"])
    return t


def props(rng, d, adt):
    r = rng.random()
    if d == 0 or r < .35:
        return {"k": rng.choice(["prop", "prop", "optprop"]), "key": rng.choice(KEYS), "ty": ptype(rng, adt)}
    return {"k": rng.choice(["each", "each", "one"]), "a": props(rng, d - 1, adt), "b": props(rng, d - 1, adt)}


def lab(rng, d, names, adt):
    r = rng.random()
    if d == 0 or r < .35:
        if adt and rng.random() < .06:
            return {"k": "empty"}
        if names and rng.random() < .4:
            return {"k": "ref", "t": rng.choice(names)}
        return {"k": "label", "l": rng.choice(LABELS)}
    if adt and r < .5:
        return {"k": rng.choice(["opt", "opt", "open"]), "a": lab(rng, d - 1, names, adt)}
    if adt and r < .6:
        return {"k": "content", "a": lab(rng, d - 1, names, adt), "p": props(rng, 1, adt), "open": rng.random() < .4}
    return {"k": rng.choice(["and", "or"]), "a": lab(rng, d - 1, names, adt), "b": lab(rng, d - 1, names, adt)}


def spec(rng, names, adt, d=2):
    f = {"k": "empty"} if rng.random() < .06 else lab(rng, rng.choice([0, 1, 1, 2][:d + 2]), names, adt)
    if rng.random() < .65:
        f = {"k": "content", "a": f, "p": props(rng, rng.choice([0, 1, 2, 2]), adt), "open": adt and rng.random() < .3}
    return f


# ---------------------------------------------------------------- candidates (no judgement: the specification decides)
def some_values(rng, t):
    k = t["k"]
    if k == "prim":
        n = rng.choice([t["min"], t["max"] if t["max"] >= 0 else t["min"] + 1, 1])
        return [value(rng, t["t"]) for _ in range(n)]
    if k in ("inter", "union"):
        return some_values(rng, t["a"] if k == "inter" and t["a"]["k"] != "any" else rng.choice([t["a"], t["b"]]))
    if k == "cond" and rng.random() < .7:
        c = t["c"]
        while c["k"] in ("not", "and", "or"):
            c = c.get(rng.choice(["a", "b"]), c["a"])
        if "v" in c:
            v = dict(c["v"])
            if v["t"] == "i" and 0 < v["i"] < 2147483647 and rng.random() < .6:
                v["i"] += rng.choice([-1, 1])
            return [v]
    return [value(rng) for _ in range(rng.choice([0, 1, 1, 2]))]


def some_record(rng, p):
    k = p["k"]
    if k == "empty":
        return {}
    if k == "prop" or (k == "optprop" and rng.random() < .6):
        return {p["key"]: some_values(rng, p["ty"])}
    if k == "each":
        return {**some_record(rng, p["a"]), **some_record(rng, p["b"])}
    if k == "one":
        return some_record(rng, rng.choice([p["a"], p["b"]]))
    return {}


def some(rng, f, nt, fuel=8):
    k = f["k"]
    if k == "label":
        return [f["l"]], {}
    if k == "ref" and f["t"] in nt and fuel:
        return some(rng, nt[f["t"]]["f"], nt, fuel - 1)
    if k in ("opt", "open"):
        if k == "opt" and rng.random() < .3:
            return [], {}
        l, r = some(rng, f["a"], nt, fuel)
        return l + ([rng.choice(LABELS)] if k == "open" else []), r
    if k == "or":
        return some(rng, rng.choice([f["a"], f["b"]]), nt, fuel)
    if k == "and":
        (l, r), (m, s) = some(rng, f["a"], nt, fuel), some(rng, f["b"], nt, fuel)
        return l + m, {**r, **s}
    if k == "content":
        l, r = some(rng, f["a"], nt, fuel)
        return l, {**r, **some_record(rng, f["p"])}
    return [], {}


def element(rng, f, nt):
    l, r = some(rng, f, nt)
    r = dict(r)
    if rng.random() < .35:
        x = rng.random()
        if x < .2:
            l = l + [rng.choice(LABELS)]
        elif x < .35 and l:
            l = l[1:]
        elif x < .55 and r:
            del r[rng.choice(list(r))]
        elif x < .75:
            r[rng.choice(KEYS)] = [value(rng) for _ in range(rng.choice([0, 1, 2]))]
        elif r:
            k = rng.choice(list(r))
            r[k] = r[k] + [value(rng)] if rng.random() < .5 else [value(rng)]
    return {"l": sorted(set(l)), "r": {k: [json.loads(v) for v in sorted({json.dumps(x, sort_keys=True) for x in vs})] for k, vs in r.items()}}


# ---------------------------------------------------------------- text
def tval(v):
    if v["t"] == "s":
        return '"' + "".join(map(chr, v["s"])) + '"'
    if v["t"] == "i":
        return str(v["i"])
    if v["t"] == "b":
        return "TRUE" if v["i"] else "FALSE"
    return 'DATE "%04d-%02d-%02d"' % (v["i"] // 10000, v["i"] // 100 % 100, v["i"] % 100)


def tcond(c, top=False):
    k = c["k"]
    if k in ("true", "false"):
        return k.upper()
    if k in ("eq", "gt", "ge", "lt", "le"):
        s = {"eq": "=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[k] + " " + tval(c["v"])
        return s
    if k == "regex":
        return 'REGEX "' + c["text"] + '"'
    if k == "not":
        return "NOT (" + tcond(c["a"]) + ")"
    def side(x):
        return "(" + tcond(x) + ")" if x["k"] in ("and", "or", "not") else tcond(x)
    s = side(c["a"]) + (" AND " if k == "and" else " OR ") + side(c["b"])
    return s


def ttype(t):
    if t["k"] == "any":
        return "ANY"
    if t["k"] == "cond":
        return "CHECK " + tcond(t["c"])
    if t["k"] == "prim":
        s = {"s": "STRING", "i": "INTEGER", "d": "DATE", "b": "BOOL"}[t["t"]]
        c = (t["min"], t["max"])
        if t["named"]:
            return s + {(1, 1): "", (0, 1): " ?", (0, -1): "*", (1, -1): " +"}[c]
        return s + " {%d,%s}" % (c[0], "*" if c[1] < 0 else c[1])
    if t["checked"]:
        return ttype(t["a"]) + " CHECK " + tcond(t["b"]["c"])
    return ttype(t["a"]) + (" & " if t["k"] == "inter" else " | ") + ttype(t["b"])


def tprops(rng, p):
    k = p["k"]
    if k in ("prop", "optprop"):
        return ("OPTIONAL " if k == "optprop" else "") + p["key"] + ": " + ttype(p["ty"])
    def side(x, left):
        s = tprops(rng, x)
        return s if x["k"] in ("prop", "optprop") or (left and x["k"] == k and rng.random() < .5) else "(" + s + ")"
    return side(p["a"], True) + (", " if k == "each" else " || ") + side(p["b"], False)


def tlab(rng, f):
    k = f["k"]
    if k == "label":
        return f["l"]
    if k == "ref":
        return "@" + f["t"]
    def side(x, left):
        s = tlab(rng, x)
        if x["k"] in ("label", "ref") or (left and x["k"] == k and rng.random() < .5):
            return s
        return ("(%s)" if rng.random() < .7 else "[%s]") % s
    return side(f["a"], True) + (" & " if k == "and" else " | ") + side(f["b"], False)


def tspec(rng, f):
    p = ""
    if f["k"] == "content":
        p, f = " { " + tprops(rng, f["p"]) + " }", f["a"]
    return ("" if f["k"] == "empty" else ": " + tlab(rng, f)) + p


def comment(rng):
    return rng.choice(["", "", "", "", " /* c */ ", " // c )\n", "\n"])


def tschema(rng, nt, et):
    out = []
    for n, t in nt.items():
        out.append(f"CREATE NODE TYPE ( {n} {tspec(rng, t['f'])} )")
    for n, t in et.items():
        out.append(f"CREATE EDGE TYPE ({tspec(rng, t['src'])}) -[ {n} {tspec(rng, t['f'])} ]-> ({tspec(rng, t['tgt'])})")
    rng.shuffle(out)
    return (" ;" + comment(rng) + "\n").join(out)


def tbody(rng, x):
    s = ""
    if x["l"]:
        ls = list(x["l"])
        rng.shuffle(ls)
        s += " {" + ", ".join('"%s"' % l if rng.random() < .3 else l for l in ls) + "}"
    if x["r"]:
        ps = []
        for k, vs in x["r"].items():
            if len(vs) > 1 and rng.random() < .2:       # the same key twice
                ps.append((k, vs[:1])); vs = vs[1:]
            ps.append((k, vs))
        rng.shuffle(ps)
        def one(vs):
            return tval(vs[0]) if len(vs) == 1 and rng.random() < .7 else "[" + ", ".join(map(tval, vs)) + "]"
        s += " [" + ", ".join(('"%s"' % k if rng.random() < .2 else k) + ": " + one(vs) for k, vs in ps) + "]"
    return s


def tgraph(rng, nodes, edges):
    s = "".join(f"({n}{tbody(rng, x)})" + rng.choice(["\n", " ", " // c\n"]) for n, x in nodes.items())
    return s + "".join(f"({x['src']}) -({n}{tbody(rng, x)})-> ({x['tgt']})\n" for n, x in edges.items())


def case(rng, adt):
    names = [f"T{i}" for i in range(rng.choice([1, 2, 3, 4]))]
    cyc = rng.random() < .05
    nt = {}
    for i, n in enumerate(names):
        usable = names if cyc else names[:i]
        if rng.random() < .03:
            usable = usable + ["Zz"]
        nt[n] = {"f": spec(rng, usable, adt)}
    et = {f"E{i}": {"src": spec(rng, names, adt, 1), "f": spec(rng, names if rng.random() < .1 else [], adt), "tgt": spec(rng, names, adt, 1)}
          for i in range(rng.choice([0, 1, 1, 2]))}
    nodes, edges = {}, {}
    fs = [t["f"] for t in nt.values()]
    for i in range(rng.choice([3, 5, 7])):
        nodes[f"n{i}"] = element(rng, rng.choice(fs), nt)
    ask = []
    for n in nodes:
        for t in rng.sample(names, min(2, len(names))):
            ask.append((n, t))
    for i in range(len(et) * rng.choice([2, 3])):
        name = rng.choice(list(et))
        t = et[name]
        for s, f in (("s", "src"), ("t", "tgt")):
            nodes[f"{s}{i}"] = element(rng, t[f], nt)
        edges[f"e{i}"] = {**element(rng, t["f"], nt), "src": f"s{i}", "tgt": f"t{i}"}
        ask.append((f"e{i}", name))
        if rng.random() < .15:
            ask.append((f"e{i}", rng.choice(list(et) + names)))
    if rng.random() < .1:
        ask.append((rng.choice(list(nodes)), rng.choice(["Zz"] + list(et))))
    if rng.random() < .03:
        ask.append(("lost", names[0]))
    if rng.random() < .1:
        ask.append(ask[0])
    if rng.random() < .5:
        rng.shuffle(ask)
    if not adt:      # the grammar cannot write a node with neither labels nor properties
        for x in nodes.values():
            if not x["l"] and not x["r"]:
                x["l"] = ["A"]
    neg = rng.random() < .4
    expect = {a: not (neg and rng.random() < .4) for a in ask}
    return {"nt": nt, "et": et, "nodes": nodes, "edges": edges, "ask": [{"e": e, "t": t, "should": expect[e, t]} for e, t in ask]}


def k01(c):
    rng = c.rng
    n = c.pick(8000, 60000)
    cmds, evs = [], []
    for i in range(n):
        adt = i % 2 == 0
        ev = case(rng, adt)
        if adt:
            cmds.append({"op": "script", "steps": [{"op": "pg_terms", **ev}]})
        else:
            tm = ", ".join(f"{a['e']}:{rng.choice(['', ' '])}{'' if a['should'] else '!'}{a['t']}" for a in ev["ask"])
            cmds.append({"op": "script", "steps": [{"op": "load_data", "data": tgraph(rng, ev["nodes"], ev["edges"]), "format": "pg"},
                                                   {"op": "load_pgschema", "schema": tschema(rng, ev["nt"], ev["et"])},
                                                   {"op": "load_typemap", "typemap": tm}, {"op": "validate_pgschema"}, {"op": "pg_report_csv"}]})
        evs.append(ev)
    res = run_harness("h_lib", cmds)
    for i, (ev, r) in enumerate(zip(evs, res)):
        out = r.get("out") or []
        o = out[-1] if out else {}
        ev.update(fail="", rows=[], valid=True, failed=["none"])
        bad = next((x for x in out if "ok" not in x), None)
        if not out or bad:
            ev["fail"] = "error" if bad and "err" in bad and (i % 2 == 0 or len(out) == 5 and "err" in out[3]) else "lost " + json.dumps(bad)[:300]
        elif i % 2 == 0:
            ev.update(rows=o["ok"]["rows"], valid=o["ok"]["valid"], failed=o["ok"]["failed"])
            keys = [(a["e"], a["t"]) for a in ev["ask"]]
        else:
            d = json.loads(out[3]["ok"])
            ev["valid"] = d["is_valid"]

            table = list(csv.reader(io.StringIO(o["ok"])))[1:]
            for k, a in enumerate(d["associations"]):
                same = k < len(table) and table[k][:2] == [a["node_id"], a["type_name"]] and ("Right" in a["details"]) == a["conforms"]
                ev["rows"].append({"e": a["node_id"], "t": a["type_name"], "got": a["conforms"],
                                   "alsogot": (table[k][2] == "true") if same else not a["conforms"]})
    c.cov["associations"] = sum(len(e["rows"]) for e in evs)
    c.cov["conforming"] = sum(r["got"] for e in evs for r in e["rows"])
    c.validate("type maps", "PgTrace", evs, replay=lambda i: cmds[i])
    # the empty property list, which only terms can write
    for way, prop, opened in (("alone", {"k": "empty"}, False), ("open", {"k": "empty"}, True),
                              ("with others", {"k": "each", "a": {"k": "empty"}, "b": {"k": "prop", "key": "a", "ty": {"k": "prim", "t": "i", "min": 1, "max": 1, "named": True}}}, False)):
        ev = {"nt": {"T0": {"f": {"k": "content", "a": {"k": "label", "l": "B"}, "p": prop, "open": opened}}}, "et": {}, "edges": {},
              "nodes": {"n0": {"l": ["B"], "r": {"a": [value(rng, "i")]} if way != "alone" else {}}}, "ask": [{"e": "n0", "t": "T0", "should": True}]}
        cmd = {"op": "script", "steps": [{"op": "pg_terms", **ev}]}
        o = run_harness("h_lib", [cmd])[0].get("out") or [{}]
        o = o[-1].get("ok")
        c.validate("probe empty property list " + way, "PgTrace", [dict(ev, fail="", **o) if o else dict(ev, fail="error", rows=[], valid=True, failed=["none"])],
                   replay=lambda i: cmd, sig=lambda i, w: None if way == "alone" else "empty-property-list")
    c.model("MCPg")
