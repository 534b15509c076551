"""P01: prefix maps."""
from .core import run_harness

ALIAS = ["", "", "e", "ex", "e-x", "e.x", "exé", "E", "a"]
NS = ["http://e/", "http://e/a", "http://e/a/", "http://e/a#", "http://e/é", "http://e/a/b/", "urn:x:", "urn:x", "http://e/a:b", "http://E/",
      "http://e/A/", "http://f/?q=", "tag:e"]
LOCAL = ["", "", "x", "a", "a:b", ":", "a/b", "é", "?f", "1", "ex:x", "a?", "/", "x.y-z", "b/", "%20", "::", "日本"]


def cps(s):
    return [ord(c) for c in s]


def some_iri(rng):
    i = rng.choice(NS)
    if rng.random() < .8:
        i += rng.choice(LOCAL)
    return i


def entries(rng):
    return [[cps(rng.choice(ALIAS)), cps(rng.choice(NS))] for _ in range(rng.choice([0, 1, 2, 3, 4]))]


def op(rng):
    g = rng.choice([1, 1, 1, 2])
    k = rng.choice(["add"] * 5 + ["remove"] * 2 + ["merge"] * 2 + ["merge_with", "set", "clone", "new"]
                   + ["find", "len", "entries", "aliases", "eq"] + ["resolve_local"] * 3 + ["resolve"] * 3
                   + ["qualify"] * 4 + ["qualify_optional", "qualify_local", "round_trip", "round_trip"])
    o = {"op": k, "g": g}
    if k in ("add", "remove", "find", "resolve_local"):
        o["a"] = cps(rng.choice(ALIAS))
    if k == "add":
        o["i"] = cps(rng.choice(NS))
    if k in ("merge", "set"):
        o["es"] = entries(rng)
        o["how"] = rng.choice(["", "", "serde", "hash"])
        if o["how"] == "hash":     # a hash map has no order and one entry per alias
            o["es"] = list({tuple(e[0]): e for e in o["es"]}.values())
    if k == "new":
        o["how"] = rng.choice(["map", "map", "mem", "data"])
    if k == "resolve_local":
        o["l"] = cps(rng.choice(LOCAL))
        o["how"] = rng.choice(["", "", "map", "deref", "deref_base", "iriref", "get"])
    if k == "resolve":
        o["s"] = cps(rng.choice(ALIAS) + ":" + rng.choice(LOCAL))
    if k in ("qualify", "qualify_optional", "qualify_local", "round_trip"):
        o["i"] = cps(some_iri(rng))
    if k == "qualify":
        o["how"] = rng.choice(["map", "map", "length", "container"])
    if k == "entries":
        o["how"] = rng.choice(["", "into"])
    return o


def p01(c):
    rng = c.rng
    cmds = []
    for _ in range(c.pick(6000, 60000)):
        ops = []
        for g in (1, 2):
            if rng.random() < .4:
                ops.append({"op": "new", "g": g, "how": rng.choice(["mem", "data"])})
        if rng.random() < .3:
            ops.append({"op": "set", "g": 1, "es": entries(rng), "how": ""})
        for _ in range(rng.choice([4, 8, 14, 20])):
            ops.append(op(rng))
        cmds.append({"op": "prefix", "ops": ops})
    res = run_harness("h_core", cmds)
    events = [{"ops": x["ops"], "obs": r.get("out") or [{"fail": str(r.get("panic", "lost")), "v": ""}]} for x, r in zip(cmds, res)]
    c.cov["operations"] = sum(len(e["ops"]) for e in events)
    c.validate("histories", "PrefixTrace", events, replay=lambda i: cmds[i])
    c.model("MCPrefix")

