"""property -> (module, function, harness package)"""
import json

CHECKS = {
    "R01": ("c_rbe", "r01", "h_core"),
    "R02": ("c_rbe", "r02", "h_core"),
    "X01": ("c_shex", "x01", "h_lib"),
    "X02": ("c_shex", "x02", "h_lib"),
    "X04": ("c_shex", "x04", "h_lib"),
    "X05": ("c_shex", "x05", "h_lib"),
    "X06": ("c_shex", "x06", "h_lib"),
    **{"H0%d" % i: ("c_shacl", "h0%d" % i, "h_lib") for i in range(1, 10)},
    "G01": ("c_store", "g01", "h_core"),
    "G02": ("c_store", "g02", "h_core h_lib"),
    "L01": ("c_session", "l01", "h_lib"),
    "L02": ("c_session", "l02", "h_lib"),
    "L03": ("c_session", "l03", "h_lib"),
    "X03": ("c_shex", "x03", "h_lib"),
    "P01": ("c_prefix", "p01", "h_core"),
    "X07": ("c_shapemap", "x07", "h_lib"),
    "X08": ("c_shexio", "x08", "h_lib"),
    "G03": ("c_literal", "g03", "h_core"),
    "C02": ("c_compare", "c02", "h_lib"),
    "K01": ("c_pg", "k01", "h_lib"),
    "C01": ("c_dctap", "c01", "h_lib"),
    "N01": ("c_generate", "n01", "h_lib"),
    "P02": ("c_iriarg", "p02", "h_lib"),
    "V01": ("c_report", "v01", "h_lib"),
    "M01": ("c_map", "m01", "h_lib"),
    "Q01": ("c_query", "q01", "h_lib"),
}
NOTES = {
    "Q01": "Query.tla, on Sparql.tla, gives the answers of SELECT (DISTINCT, LIMIT, OFFSET, ORDER BY, COUNT per group), ASK and CONSTRUCT over an algebra with paths, OPTIONAL, "
           "UNION, MINUS, VALUES, BIND, subqueries, EXISTS and filters; recorded answers of thousands of random queries, in every format, are judged against it; "
           "MCQuery.tla: an evaluator that goes one pattern and one row at a time ends with those answers, and the judge accepts no others.",
    "M01": "MapState.tla, on top of ShEx.tla, says which keys a validation may and must bind to which values, and which tree of triples a schema and a binding "
           "stand for; map states and graphs recorded from thousands of random schemas, data and states (saved and loaded in between) are judged against it.",
    "V01": "Report.tla says which rows every document about a validation has (tables, CSV, JSON, minimal, RDF), in which order each sort mode puts them and that "
           "the blank nodes of an RDF report are new; thousands of recorded documents of random validations are judged against it; MCReport.tla: a permutation is accepted exactly if sorted.",
    "H08": "Shapes graphs generated as terms of the specification are loaded, written in an RDF format, and read back once or twice; the reports of the result "
           "are judged by Shacl.tla against the term, so that writer and parser are judged together.",
    "H09": "Sparql.tla gives the solutions of a query (joins, optional parts, unions, filters, EXISTS, sub-queries, paths) under a pre-bound variable, and Shacl.tla the "
           "results they stand for; the reports of recorded validations, in both engines and after writing and reading the shapes, are judged against it.",
    "N01": "Generate.tla says which graphs are right for a schema and a configuration (entities per shape, values per property, datatypes, targets) and that every "
           "run of a seeded configuration gives one graph; thousands of recorded runs, spread over processes, threads and forms of the configuration, are judged against it.",
    "C01": "Dctap.tla gives the nodes that satisfy the rows of a profile; verdicts of the schema converted from thousands of recorded CSV profiles "
           "are judged against it; MCDctap.tla proves the ShEx translation equal to the rows' meaning for all small profiles.",
    "K01": "Pg.tla gives the set of labels and records that a type expression denotes; every association reported for recorded property graphs, schemas and type "
           "maps (as text and as terms) is judged; MCPg.tla proves the set construction equal to the meaning of the operators on all small expressions.",
    "C02": "Compare.tla says which properties a comparison of two shapes must list, where, and with which descriptions; thousands of recorded comparisons "
           "(ShExC and ShExJ, swapped and with themselves) are judged; MCCompare.tla: the answer is a partition and the only one accepted.",
    "G03": "Literals.tla says which answers a comparison of two literals may give; every representation of the literals is compared with every other "
           "and the answers, equality, hashes and the total order are judged; MCLit.tla checks that the specified order is an order.",
    "X08": "Schemas generated as terms of the specification are loaded, written (ShExC, ShExJ, compiled) and read back once or twice; what the result "
           "says about every node of recorded graphs is judged by ShEx.tla against the term, so printer and parser are judged together.",
    "X07": "ShapeMap.tla says which (node, shape) pairs a query shape map selects in a graph (nodes, triple patterns, SPARQL selectors) and, with ShEx.tla, "
           "which verdict each gets; the rows reported for thousands of recorded schemas, graphs and maps are judged.",
    "P02": "IriArg.tla classifies every argument text (bare absolute IRI or not), normalizes it per mode and says what it denotes; the nodes and shapes "
           "that the session facade selected for it (shape map and node description, both modes) are compared with that.",
    "P01": "Prefix.tla (finite map of aliases to namespaces) replays recorded histories of PrefixMap, OxigraphInMemory and RdfData; MCPrefix.tla "
           "checks round trip and merge laws in every reachable map over a small alphabet.",
    "R01": "RbeModel.tla: three matching algorithms proved equal to the denotational language for all small expressions; "
           "RbeTrace.tla judges every run of the real matchers (bounded expressions and bags; counts <= 7).",
    "R02": "Valid assignments enumerated by TLC for every recorded table, expression and pair sequence (bounded).",
}
_reasons = {}
NOT_APPLICABLE = [
    {"property": p["id"], "reason": _reasons.get(p["id"], "not claimed: the check is not built yet")}
    for p in map(json.loads, open("/verif/properties.jsonl")) if p["id"] not in CHECKS]
