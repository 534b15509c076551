"""X08: serialized and compiled ShEx schemas mean what the schema they were made from means."""
from .core import run_harness
from .shexgen import *
from .c_shex import typing_event, smap, pairs_of, nc_cases, x05_cases, label

WAYS = [["shexc"], ["shexj"], ["compiled"], ["shexc", "shexj"], ["shexj", "shexc"], ["shexc", "shexc"], ["shexc", "compiled"], ["shexj", "compiled"]]


def roundtrips(c, part, cases, ways=None):
    rng = c.rng
    cmds, todo = [], []
    for sch, gs in cases:
        way = rng.choice(ways or WAYS)
        text = shexc(sch, rng)
        if rng.random() < .7:
            text = "".join(f"PREFIX {a}: <{n}>\n" for a, n in rng.sample([("", E), ("e", E), ("p", E + "p"), ("xsd", XSD), ("u", "urn:x:")], rng.randint(1, 3))) + text
        st = [{"op": "load_shex", "schema": text}] + [{"op": "shex_roundtrip", "format": f} for f in way]
        asks = []
        for g, pairs in gs:
            st += [{"op": "load_data", "data": g.turtle(rng), "format": "turtle", "merge": False},
                   {"op": "load_shapemap", "shapemap": smap(pairs, g.nodes)}, {"op": "validate_shex"}]
            asks.append((g, pairs, len(st)))
        cmds.append({"steps": st})
        todo.append((sch, asks))
    ans = run_harness("h_lib", cmds, timeout=20)
    evs, where = [], []
    for k, ((sch, asks), a) in enumerate(zip(todo, ans)):
        for g, pairs, n in asks:
            evs.append(typing_event(sch, g, pairs, a, False, n))
            where.append(k)
    c.validate(part, "ShExTrace", evs, replay=lambda i: {"steps": cmds[where[i]]["steps"], "answer": ans[where[i]]})


def x08(c):
    rng = c.rng
    cases = []
    for k in range(c.pick(1500, 15000)):
        gen = Gen(rng, labels=rng.choice([1, 1, 2]), preds=rng.choice([1, 2, 2, 3]))
        sch = gen.schema(0)
        gs = [gen.gen_graph(rng.choice([2, 4, 5])) for _ in range(2)]
        cases.append((sch, [(g, pairs_of(sch, g)) for g in gs]))
    roundtrips(c, "shapes", cases)
    cases = []
    for k in range(c.pick(1500, 15000)):
        neg = rng.random() < .6
        gen = Gen(rng, labels=rng.choice([1, 2, 2, 3]), preds=rng.choice([1, 2, 3]), refs=True, logic=True, neg=neg,
                  maxtc=rng.choice([1, 2, 3]), groups=.3, extra=.15, closed=.2, inv=.08, nots=neg)
        sch = gen.schema(rng.choice([1, 2, 3]))
        gs = [gen.gen_graph(rng.choice([3, 5])) for _ in range(2)]
        cases.append((sch, [(g, pairs_of(sch, g)) for g in gs]))
    roundtrips(c, "logic", cases)
    roundtrips(c, "node constraints", nc_cases(c, c.pick(1200, 12000)))
    roundtrips(c, "inheritance", x05_cases(c, c.pick(600, 6000)))
