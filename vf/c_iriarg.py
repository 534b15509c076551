"""P02: node and shape arguments, in lax and strict mode."""
import re
from .core import run_harness
from .c_prefix import cps

IRIS = ["http://e/a", "http://e/b", "https://e/a", "http://e/a?u=http://f/", "http://e/a#x", "urn:x:y", "http://e/é", "x-y+z.1://h/a", "file:///tmp/a",
        "http://h//e/a", "http://h/", "http://e/", "HTTP://E/a", "mailto:a@b", "http://e/a_b", "http://_/a", "http://e/(a)", "http://e/a://b", "ws://e:80/a", "urn:a://b"]
PRED = ["http://e/p", "http://e/q"]
DOC_PM = [("", "http://e/"), ("e", "http://e/a"), ("x", "urn:x:"), ("http", "http://h/"), ("urn", "http://e/"), ("ex", "https://e/"), ("h", "http://h//e/"), ("https", "http://e/")]
SHAPES = ["http://e/S", "http://e/T", "https://e/S", "http://h/S", "urn:x:S", "http://h//e/S", "http://e/aS", "http://e/a?u=http://f/S"]


def bare_like(rng, pool):
    i = rng.choice(pool)
    r = rng.random()
    if r < .45:
        return i
    if r < .65:
        return "<" + i + ">"
    if r < .75:
        return rng.choice([" ", "\t", "  ", "\n"]) + i + rng.choice(["", " ", "\n"])
    k = rng.randrange(len(i) + 1)   # something odd inside
    return i[:k] + rng.choice([" ", "<", ">", '"', "{", "}", "^", "`", "|", "\\", "_", ":", "://", ",", "@"]) + i[k:]


def name(rng, aliases, locals_):
    return rng.choice(aliases + ["zz", "Http", ""]) + ":" + rng.choice(locals_)


def node_arg(rng, pm, preds):
    r = rng.random()
    al = [a for a, _ in pm]
    if r < .5:
        return bare_like(rng, IRIS), {"k": "text"}
    if r < .65:
        return name(rng, al, ["a", "b", "", "x", "y", "a_b", "1", "e", "zz"]), {"k": "text"}
    if r < .7:
        return rng.choice(["_:b1", "_:b2", "_:zz", "_b://x", "_:b1://x", "_://x"]), {"k": "text"}
    p = rng.choice(preds)
    if r < .8:
        t = rng.choice(["{FOCUS <%s> _}", "{ FOCUS <%s> _ }", " {FOCUS <%s> _}", "{focus <%s> _}"]) % p
        return t, {"k": "subjects", "p": cps(p)}
    if r < .9:
        q = rng.choice(["SELECT ?focus WHERE { ?focus <%s> ?x }", "select ?focus { ?focus <%s> [] }"]) % p
        qt = rng.choice(['"', "'", '"""'])
        return rng.choice(["SPARQL ", "sparql ", "SPARQL  "]) + qt + q + qt, {"k": "subjects", "p": cps(p)}
    if r < .97:
        t = rng.choice(['"http://e/a"', '"see http://e/a"', '"x"', '"a://b"@en', '"://"', '"<http://e/a>"'])
        return t, {"k": "literal", "show": cps(t)}
    return rng.choice(["", " ", "a b://c", "://x", "1://x", "-a://b", "e:a b", "<http://e/a> <http://e/b>", "{http://e/a}", "http://e/a,http://e/b", "e:a@:S", "<http://e/a>@:S", "a", "START"]), {"k": "text"}


def shape_arg(rng, pm):
    if rng.random() < .65:
        s = bare_like(rng, SHAPES)
    else:
        s = name(rng, [a for a, _ in pm], ["S", "T", "aS"])
    return s


def build(rng):
    pm = [("m", "http://m/")] + [x for x in DOC_PM if rng.random() < .4]
    nodes = rng.sample(IRIS, 10) + ["_:b1"]
    data = []
    for k, n in enumerate(nodes):
        data.append({"n": n, "p": rng.choice(PRED), "m": f"M{k}M"})
    doc = "".join(f"@prefix {a}: <{i}> .\n" for a, i in pm)
    doc += "".join(f'{d["n"] if d["n"].startswith("_:") else "<" + d["n"] + ">"} <{d["p"]}> "{d["m"]}" .\n' for d in data)
    sch = "".join(f"PREFIX {a}: <{i}>\n" for a, i in pm) + "".join(f"<{s}> {{}}\n" for s in SHAPES) + "start = @<http://e/S>\n"
    return pm, data, doc, sch


def obs(r, pos):
    """Observations of [load_data, load_shex, add, validate, info]."""
    if "out" not in r or len(r["out"]) < 5:
        f = {"k": "lost " + str(r.get("panic", ""))[:100], "v": []}
        return {"add": f, "info": f}
    _, _, add, val, info = r["out"]
    if "panic" in add or "panic" in val:
        a = {"k": "panic", "v": []}
    elif "err" in add:
        a = {"k": "error", "v": []}
    elif "err" in val:
        a = {"k": "error", "v": []}
    else:
        i = 0 if pos == "node" else 1
        a = {"k": "set", "v": sorted(cps(x[i]) for x in val["ok"])}
    if pos == "shape":
        b = {"k": "none", "v": []}
    elif "panic" in info:
        b = {"k": "panic", "v": []}
    elif "err" in info:
        b = {"k": "error", "v": []}
    else:
        b = {"k": "set", "v": sorted(cps(x) for x in set(re.findall(r"M\d+M", info["ok"])))}
    return {"add": a, "info": b}


def p02(c):
    rng = c.rng
    cmds, evs = [], []
    for _ in range(c.pick(120, 1200)):
        pm, data, doc, sch = build(rng)
        for _ in range(12):
            pos = "node" if rng.random() < .7 else "shape"
            if pos == "node":
                s, sel = node_arg(rng, pm, PRED)
            else:
                s, sel = shape_arg(rng, pm), {"k": "text"}
            for mode in ("lax", "strict"):
                add = {"op": "add_node_shape", "node": s, "shape": "<http://e/S>", "iri_mode": mode} if pos == "node" else \
                      {"op": "add_node_shape", "node": "<http://e/a>", "shape": s, "iri_mode": mode}
                if pos == "node" and rng.random() < .3:
                    del add["shape"]
                if mode == "lax" and rng.random() < .3:
                    del add["iri_mode"]      # lax is the default
                cmds.append({"op": "script", "steps": [{"op": "load_data", "data": doc}, {"op": "load_shex", "schema": sch}, add, {"op": "validate_shex"},
                                                       {"op": "node_info", "node": s, "iri_mode": mode, "show": "outgoing"}]})
            evs.append({"s": cps(s), "sel": sel, "pos": pos, "pm": [[cps(a), cps(i)] for a, i in pm],
                        "data": [{"s": cps(d["n"]), "p": cps(d["p"]), "m": cps(d["m"])} for d in data]})
    res = run_harness("h_lib", cmds)
    for k, e in enumerate(evs):
        e["lax"], e["strict"] = obs(res[2 * k], e["pos"]), obs(res[2 * k + 1], e["pos"])
    c.cov["arguments"] = len(evs)
    c.cov["accepted_lax_only"] = sum(1 for e in evs if e["lax"]["add"]["k"] == "set" and e["strict"]["add"]["k"] == "error")
    c.validate("arguments", "IriArgTrace", evs, replay=lambda i: [cmds[2 * i], cmds[2 * i + 1]])
