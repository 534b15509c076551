"""Random node constraints and values near their boundaries."""
from .shexgen import *

INTS = ["integer", "long", "int", "short", "byte", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger",
        "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte"]
NUMS = INTS + ["decimal", "double", "float"]
DTS = NUMS + ["string", "boolean", "dateTime", "date", "http://e/dt", "anyURI"]
LANGS = ["en", "en-GB", "en-gb", "EN", "fr", "fr-CA", "de", "en-GB-oed", "enx"]
CH = "abAB1é日𝄞 -_"
BOUNDS = {"byte": ["127", "128", "-128", "-129"], "unsignedByte": ["255", "256", "-1", "0"], "short": ["32767", "32768", "-32768", "-32769"],
          "unsignedShort": ["65535", "65536"], "int": ["2147483647", "2147483648", "-2147483648", "-2147483649"], "unsignedInt": ["4294967295", "4294967296"],
          "long": ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"],
          "unsignedLong": ["18446744073709551615", "18446744073709551616"], "nonNegativeInteger": ["0", "-1", "-0"], "positiveInteger": ["0", "1"],
          "nonPositiveInteger": ["0", "1"], "negativeInteger": ["0", "-1"]}
IRIS = [E + x for x in ("n1", "n2", "n12", "a/b", "a/", "a#x", "é", "N1")] + ["urn:x:y", "http://f/z"]


def gstr(rng, maxn=5):
    return "".join(rng.choice(CH) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, maxn])))


def num_lex(rng, dt):
    """a lexical form that is usually well formed for dt"""
    r = rng.random()
    if r < .12:
        return rng.choice(["", "x", "1.", ".", "1e", "+", "--1", " 1", "1 ", "0x1", "1.5", "1e2", "abc", "INF", "-INF", "NaN", "inf", "nan", "infinity", "+1", "01", "-0"])
    if dt in BOUNDS and r < .35:
        return rng.choice(BOUNDS[dt])
    v = rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 12, 99, 100, 101, 127, 1000])
    s = rng.choice(["", "", "-", "+"]) + rng.choice(["", "", "", "0", "00"]) + str(v)
    if dt in INTS:
        return s
    if rng.random() < .6:
        s += "." + rng.choice(["0", "5", "50", "05", "25", "125", "00", "1"])
    if dt != "decimal" and rng.random() < .4:
        s += rng.choice(["e", "E"]) + rng.choice(["0", "1", "2", "-1", "+1"])
    return s


DATES = ["2020-01-01", "2020-02-29", "1999-12-31", "2020-01-01Z", "2020-01-01+01:00"]   # ill-formed dates: the standard leaves them open


def okdate(t):
    if t[0] == "lit" and t[2] == "dateTime" and len(t[1]) > 12 and t[1].isdigit():
        return lit("x", "dateTime")      # the dateTime parser of a dependency panics on years beyond 64 bits
    # xsd:date is not among the datatypes whose lexical form the standard checks
    if t[0] == "lit" and t[2] == "date" and t[1] not in DATES:
        return lit(DATES[len(t[1]) % len(DATES)], "date")
    return t


DTIMES = ["2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "2020-01-01T12:30:59.5Z", "2020-01-01T00:00:00+02:00", "2020-01-01T25:00:00", "2020-01-01",
          "2020-02-30T00:00:00", "2020-01-01T10:00", "x"]


def value(rng):
    r = rng.random()
    if r < .15:
        return iri(rng.choice(IRIS))
    if r < .2:
        return bn(rng.choice(["b1", "b2"]))
    if r < .35:
        return lit(gstr(rng))
    if r < .5:
        return lit(gstr(rng, 3), "", rng.choice(LANGS))
    if r < .85:
        dt = rng.choice(NUMS if rng.random() < .6 else ["integer", "decimal", "double"])
        return lit(num_lex(rng, dt), dt)
    dt = rng.choice(["boolean", "dateTime", "date", "http://e/dt", "anyURI", "string"])
    s = {"boolean": ["true", "false", "1", "0", "True", "yes", ""], "dateTime": DTIMES, "date": DATES}.get(dt) or [gstr(rng), "5"]
    return lit(rng.choice(s), dt)


def mutate(rng, t):
    k, s, dt, lang = t
    if k == "bnode":
        return value(rng)
    r = rng.random()
    if r < .35:
        return t
    if r < .6 and k == "lit" or k == "iri":
        s2 = rng.choice([s + rng.choice("abA1é"), s[:-1], s.swapcase(), rng.choice("ab") + s if k == "lit" else s + "x"])
        if k == "iri" and (":" not in s2 or not s2.islower() or s2.endswith(":")):
            return t
        return (k, s2, dt, lang)
    if k == "lit":
        if lang:
            return lit(s, "", rng.choice([lang.upper(), lang.lower(), lang + "-x", lang[:-1] if len(lang) > 2 and lang[-2] != "-" else lang, rng.choice(LANGS)]))
        return rng.choice([lit(s, rng.choice(DTS)), lit(s, "", rng.choice(LANGS)), iri(E + "n1")])
    return t


FACNUM = ["0", "1", "5", "10", "100", "-1", "1.5", "0.5", "0.05", "10.0", "-0.5", "-1.05", "5.25", "127", "1.0e1"]


def facets(rng, dt):
    out = []
    num = dt in NUMS or dt == ""
    kinds = []
    if num and rng.random() < .7:
        kinds += rng.sample(["mininclusive", "minexclusive", "maxinclusive", "maxexclusive", "totaldigits", "fractiondigits"], rng.choice([1, 1, 2]))
    if (dt not in NUMS and rng.random() < .8) or rng.random() < .1:
        kinds += rng.sample(["length", "minlength", "maxlength", "pattern"], rng.choice([1, 1, 2]))
    for k in kinds:
        if k == "pattern":
            out.append({"k": k, "pat": gen_pat(rng, "abA1é日𝄞", .2, "smx")})
        elif k in ("length", "minlength", "maxlength"):
            out.append({"k": k, "n": rng.choice([0, 1, 1, 2, 2, 3, 4])})
        elif k in ("totaldigits", "fractiondigits"):
            out.append({"k": k, "n": rng.choice([0, 1, 1, 2, 3]) if k == "fractiondigits" else rng.choice([1, 1, 2, 3])})
        else:
            out.append({"k": k, "num": rng.choice(FACNUM)})
    return out


def vsvalue(rng):
    r = rng.random()
    if r < .45:
        while True:
            t = value(rng)
            if t[0] != "bnode":
                return {"k": "obj", "t": okdate(t)}
    if r < .55:
        return {"k": "lang", "s": rng.choice(LANGS)}
    kind = rng.choice(["iri", "lit", "lang"])
    wild = rng.random() < .3
    pool = {"iri": [E, E + "n", E + "n1", E + "a", "urn:x:", "http://"], "lit": ["", "a", "1", "ab", "é", "b"], "lang": ["en", "fr", "en-GB", "de", ""]}[kind]
    ex = []
    for _ in range(rng.choice([0, 1, 1, 2]) if not wild else rng.choice([1, 1, 2])):
        st = rng.random() < .5
        full = {"iri": IRIS[:4] + [E + "n"], "lit": ["a", "ab", "1", "b", "aa"], "lang": LANGS[:7]}[kind]
        ex.append({"stem": st, "s": rng.choice([x for x in pool if x] if st else full)})
    return {"k": "stem", "kind": kind, "wild": wild, "s": "" if wild else rng.choice([p for p in pool if p or kind == "lit"]), "excl": ex}


def node_constraint(rng):
    r = rng.random()
    kind = dt = ""
    vals = None
    if r < .3:
        kind = rng.choice(["iri", "literal", "nonliteral", "bnode"])
    elif r < .75:
        dt = rng.choice(DTS if rng.random() < .6 else ["integer", "decimal", "string", "double"])
    elif r < 1:
        vals = [vsvalue(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    f = []
    if kind != "bnode" and kind != "nonliteral" and rng.random() < (.75 if vals is None else .3):
        f = facets(rng, dt if kind != "iri" else "string")
    return nc(kind, dt, f, vals)


def near(rng, c, n):
    """n values, many of them close to what the constraint c talks about"""
    out = []
    lines = [f["pat"] for f in c["facets"] if f.get("pat") and set(f["pat"]["flags"]) & set("sm")]
    for _ in range(n):
        r = rng.random()
        if lines and rng.random() < .5:
            out.append(lit(pat_vals(rng, rng.choice(lines))))
        elif c["hasvals"] and r < .7:
            v = rng.choice(c["vals"])
            if v["k"] == "obj":
                out.append(mutate(rng, v["t"]))
            elif v["k"] == "lang":
                out.append(mutate(rng, lit(gstr(rng, 2), "", v["s"])))
            else:
                b = v["s"] if not v["excl"] or rng.random() < .4 else rng.choice(v["excl"])["s"]
                if v["kind"] == "iri":
                    b = b + rng.choice(["", "", "1", "x"]) if ":" in b else E + "n1"
                    out.append(iri(b if not b.endswith((":", "//")) else b + "z/q"))
                elif v["kind"] == "lit":
                    b = b + rng.choice(["", "", "b", "1"])
                    out.append(rng.choice([lit(b), lit(b, "", rng.choice(LANGS)), lit(b, "http://e/dt")]))
                else:
                    b = (b or "en") + rng.choice(["", "", "-GB", "-x"])
                    out.append(lit(gstr(rng, 2), "", rng.choice([b, b.upper()])))
        elif c["dt"] and r < .6:
            dt = c["dt"]
            if dt in NUMS:
                out.append(lit(num_lex(rng, dt), dt))
            elif dt in ("boolean", "dateTime", "date"):
                out.append(lit(rng.choice({"boolean": ["true", "false", "1", "0", "True", ""], "dateTime": DTIMES, "date": DATES}[dt]), dt))
            else:
                out.append(lit(gstr(rng), dt))
        elif any("num" in f for f in c["facets"]) and r < .8:
            n0 = rng.choice([f["num"] for f in c["facets"] if "num" in f])
            d = rng.choice(["decimal", "integer", "double"]) if not c["dt"] else c["dt"] if c["dt"] in NUMS else "decimal"
            n0 = rng.choice([n0, n0, n0 + "1" if "." in n0 and "e" not in n0 else n0 + ".0", n0 + ".01" if "." not in n0 else n0, str(int(float(n0)) + 1), str(int(float(n0)) - 1)])
            out.append(lit(n0, d))
        else:
            out.append(value(rng))
    return [okdate(t) for t in out]
