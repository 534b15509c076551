"""G03: comparison of literals."""
from .core import run_harness

XSD = "http://www.w3.org/2001/XMLSchema#"
RANGE = {"byte": (-128, 127), "short": (-2**15, 2**15 - 1), "int": (-2**31, 2**31 - 1), "long": (-2**63, 2**63 - 1),
         "unsignedByte": (0, 255), "unsignedShort": (0, 2**16 - 1), "unsignedInt": (0, 2**32 - 1), "unsignedLong": (0, 2**64 - 1),
         "integer": (-2**100, 2**100), "nonNegativeInteger": (0, 2**100), "positiveInteger": (1, 2**100),
         "nonPositiveInteger": (-2**100, 0), "negativeInteger": (-2**100, -1)}
INTS = [0, 0, 1, 1, 2, 3, 9, 10, 11, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 999999, 2**31 - 1, 2**31, 2**32, 10**15, 2**53, 2**53 + 1,
        2**63 - 1, 2**63, 2**64 - 1, 10**27, 2**95 + 1, 2**100]
FRAC = ["0", "00", "5", "50", "25", "1", "10", "125", "001", "75", "3", "000000001", "99999", "123456789012"]
WORDS = ["", "a", "b", "A", "ab", "a b", "1", "10", "9", "é", "z", "true", "😀", "｡"]
OTHER = ["http://e/dt", "http://e/dt2", XSD + "anyURI", XSD + "gYear", XSD + "token"]
LANGS = ["en", "EN", "es", "en-GB"]


def lit(s, dt, lang=""):
    return {"t": "lit", "s": [ord(c) for c in s], "dt": dt, "lang": [ord(c) for c in lang]}


def intlex(rng, v):
    s = str(abs(v))
    if rng.random() < .3:
        s = "0" * rng.choice([1, 1, 2, 5]) + s
    return ("-" if v < 0 else rng.choice(["", "", "", "+"]) if v else rng.choice(["", "", "+", "-"])) + s


def declex(rng, v):
    if rng.random() < .3:
        return intlex(rng, v)
    f = rng.choice(FRAC)
    s = str(abs(v))
    if v == 0 and rng.random() < .3:
        s = ""
    if len(s) + len(f) > 26:
        f = "5"
    return ("-" if v < 0 else rng.choice(["", "", "+", "-"])) + "0" * rng.choice([0, 0, 0, 2]) + s + "." + f


def numeric(rng, near=None):
    v = near if near is not None and rng.random() < .6 else rng.choice(INTS) * rng.choice([1, 1, -1]) + rng.choice([0, 0, 0, 1, -1])
    k = rng.choice(["int"] * 4 + ["decimal"] * 2 + ["double", "double", "float"])
    if k == "int":
        dts = [d for d, (a, b) in RANGE.items() if a <= v <= b]
        if dts:
            return lit(intlex(rng, v), rng.choice(dts)), v
        k = "decimal"
    if k == "decimal":
        v = v if abs(v) < 10**27 else 5
        return lit(declex(rng, v), k), v
    r = rng.random()
    if r < .12:
        return lit(rng.choice(["INF", "-INF", "NaN"]), k), v
    if abs(v) >= 2**40 and r < .5:     # powers of two near the limits of the types
        return lit(str(2 ** rng.choice([49, 52, 53, 60, 63, 64, 95, 100]) * rng.choice([1, -1])) + rng.choice(["", ".0", "e0"]), "double"), v
    s = declex(rng, v)
    if r < .5:
        s += rng.choice("eE") + rng.choice(["0", "1", "-1", "+2", "00", "-3"])
    elif r < .55:
        s += rng.choice(["e30", "E-30", "e-12", "e20"])
    return lit(s, k), v


def date(rng, t):
    d = "%04d-%02d-%02d" % (rng.choice([1999, 2000, 2020, 2020, 2021]), rng.choice([1, 1, 2, 12]), rng.choice([1, 1, 2, 28]))
    if t:
        d += "T%02d:%02d:%02d" % (rng.choice([0, 0, 10, 12, 23]), rng.choice([0, 0, 30, 59]), rng.choice([0, 0, 1, 59]))
        d += rng.choice(["", "", "", ".0", ".5", ".50", ".123"])
    return d + rng.choice(["", "", "Z", "Z", "+00:00", "-00:00", "+05:30", "-05:00", "+14:00", "-14:00", "+02:00"])


def broken(rng):
    return rng.choice([lit("x", "integer"), lit("1.0", "integer"), lit("300", "byte"), lit("-1", "nonNegativeInteger"), lit("", "decimal"), lit("1e0", "decimal"),
                       lit("TRUE", "boolean"), lit("2020-02-30T00:00:00Z", "dateTime"), lit("2020-13-01", "date"), lit("inf", "double"),
                       lit("2020-01-01", "dateTime"), lit("0", "positiveInteger"), lit(" 1", "integer")])


def some(rng, kind, near):
    if kind == "num":
        return numeric(rng, near)
    if kind == "bool":
        return lit(rng.choice(["true", "false", "0", "1"]), "boolean"), near
    if kind == "str":
        return lit(rng.choice(WORDS), "string"), near
    if kind == "lang":
        return lit(rng.choice(WORDS[:6]), "langString", rng.choice(LANGS)), near
    if kind in ("dateTime", "date"):
        return lit(date(rng, kind == "dateTime"), kind), near
    if kind == "bad":
        return broken(rng), near
    return lit(rng.choice(WORDS + ["2020"]), rng.choice(OTHER)), near


KINDS = ["num"] * 5 + ["bool", "str", "lang", "dateTime", "dateTime", "date", "bad", "other"]


def g03(c):
    rng = c.rng
    cmds, docs = [], []
    for _ in range(c.pick(3000, 40000)):
        mixed = rng.random() < .4
        kind = rng.choice(KINDS)
        near = None
        lits = []
        for _ in range(rng.choice([3, 4, 5, 6])):
            x, near = some(rng, rng.choice(KINDS) if mixed else kind, near)
            if x not in lits:
                lits.append(x)
        wire = [dict(x, lang="".join(map(chr, x["lang"])), dt=x["dt"] if "/" in x["dt"] else XSD + x["dt"]) for x in lits]
        cmds.append({"op": "literal_cmp", "lits": wire})
        docs.append(lits)
    res = run_harness("h_core", cmds)
    events = []
    for d, r in zip(docs, res):
        o = r.get("out") or {"term": [], "form": [], "kind": [], "cmp": [], "eq": [], "hash": [], "lt": [], "total": [], "tcmp": [], "teq": [], "sorted": [],
                             "fail": str(r.get("panic", "lost"))}
        events.append(dict(o, lits=d))
    c.cov["pairs compared"] = sum(len(e["term"]) ** 2 for e in events)
    c.validate("comparisons", "LiteralTrace", events, replay=lambda i: cmds[i])
    c.model("MCLit")
