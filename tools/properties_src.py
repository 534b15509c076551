prop("R01", "Bag matching accepts exactly the language of the regular bag expression",
 "A bag of symbols is accepted by a regular bag expression (symbols with cardinalities, sequencing, alternatives and repeated groups) if and only if the bag belongs to the set of bags the expression denotes. The answer does not depend on which of the available matching algorithms is chosen, nor on the order in which the bag's elements were inserted; when unknown symbols are declared ignorable they never change the answer.",
 ["inputs", "programs"], "every expression, every bag, every algorithm choice and every insertion order",
 "Unit tests sample a few dozen expression/bag pairs; the guarantee is an equivalence with a denotational semantics over an infinite family of expressions and bags, and an agreement between two very different algorithms (derivatives, intervals).",
 ["rbe/src/rbe.rs", "rbe/src/rbe_struct.rs", "rbe/src/interval.rs", "rbe/src/deriv_n.rs", "rbe/src/cardinality.rs", "rbe/src/max.rs"],
 [("derivatives of expressions", "rbe/src/rbe.rs"), ("interval computation for single-occurrence expressions", "rbe/src/rbe_struct.rs")],
 ["result of matching a bag against an expression"])

prop("R02", "Neighbourhood matching succeeds exactly when a valid assignment exists",
 "Given a table of components (key, condition) and an expression over them, a sequence of key/value pairs matches if and only if every pair can be assigned to one component with the same key whose condition accepts the value such that the resulting bag of components belongs to the expression's language. Every assignment offered is one such assignment, and the order in which pairs are given does not change whether one exists.",
 ["inputs", "programs"], "every component table, expression and sequence of pairs",
 "Tests use a handful of small tables; the number of candidate assignments is exponential in the number of pairs and the early-exit filters must never lose or invent one.",
 ["rbe/src/rbe_table.rs", "rbe/src/rbe_struct.rs", "rbe/src/match_cond.rs", "rbe/src/candidate.rs"],
 [("candidate enumeration with prefiltering and feasibility pruning", "rbe/src/rbe_table.rs")],
 ["iterator of matches for a list of (key, value) pairs"])

prop("X01", "ShEx shape matching follows the standard's triple-expression semantics",
 "A node satisfies a shape exactly when its arcs can be split as the ShEx standard prescribes: every matched arc satisfies the constraint it is assigned to, the cardinalities of the triple constraints, groups and alternatives are met, arcs on mentioned predicates that match nothing are allowed only under EXTRA, and arcs on other predicates are allowed only if the shape is not CLOSED. This includes inverse constraints, the same predicate used by several constraints, nested groups with cardinalities, and empty shapes.",
 ["inputs", "programs"], "every shape expression over the compact syntax, every RDF graph and every focus node",
 "The bundled ShEx test-suite submodule is not part of the test run here; unit tests sample single features while the semantics quantifies over all combinations of cardinality, choice, EXTRA and CLOSED.",
 ["shex_validation/src/engine.rs", "shex_ast/src/ir/ast2ir.rs", "shex_ast/src/ir/shape.rs", "rbe/src/rbe_table.rs"],
 [("matching of a node's neighbourhood against the compiled expression", "shex_validation/src/engine.rs"), ("compilation of triple expressions", "shex_ast/src/ir/ast2ir.rs")],
 ["conformance reported for (node, shape)"])

prop("X02", "ShEx AND, OR, NOT, references and recursion have their standard meaning",
 "For every schema accepted by the tool, the reported conformance of a node to a shape is the one given by the standard's stratified semantics: conjunction, disjunction and negation combine the conformance of their parts on the same node, references are transparent, and recursive references without negation are satisfied by the largest consistent typing. Validation terminates on cyclic data and cyclic schemas.",
 ["inputs", "programs"], "every schema (with recursive and mutually recursive shapes) and every graph, including cyclic ones",
 "The recursion machinery keeps hypotheses and memoised answers; whether an answer computed under a hypothesis may be reused depends on the order of exploration, which tests sample at a few points only.",
 ["shex_validation/src/engine.rs", "shex_validation/src/validator.rs", "shex_ast/src/ir/shape_expr.rs"],
 [("hypothesis list and memo table of the proof search", "shex_validation/src/engine.rs")],
 ["conformance reported for (node, shape)"])

prop("X03", "Schemas recursing through negation are rejected, and only those",
 "A schema in which a shape depends on itself through a negation (NOT, or the implicit negation of EXTRA) is refused before any validation takes place, and a schema without such a cycle is never refused for that reason.",
 ["programs"], "every schema's reference graph, including cycles through several shapes and nested operators",
 "Tests contain a few fixed cyclic schemas; the condition is about every cycle in an arbitrary dependency graph.",
 ["shex_ast/src/ir/schema_ir.rs", "shex_ast/src/ir/dependency_graph.rs", "shex_validation/src/validator.rs"],
 [("negative cycle detection on the dependency graph", "shex_ast/src/ir/dependency_graph.rs")],
 ["error when creating the validator from a schema"])

prop("X04", "ShEx node constraints accept exactly the values the standard admits",
 "For every RDF term and every combination of node kind, datatype, string facets, numeric facets and value set (values, stems, ranges, language tags, wildcards and exclusions), the term is accepted exactly when it satisfies each of the given constraints as defined by the ShEx standard.",
 ["inputs", "programs"], "every term against every combination of constraints",
 "Each facet has one or two unit tests; combinations, ill-formed literals, non-ASCII lengths and exclusions are a product space.",
 ["shex_ast/src/ir/node_constraint.rs", "shex_ast/src/ir/value_set_value.rs", "shex_ast/src/ir/exclusion.rs", "shex_ast/src/ast/xs_facet.rs", "shex_ast/src/ir/ast2ir.rs"],
 [("compiled match conditions", "shex_ast/src/ir/ast2ir.rs")],
 ["conformance of a focus node to a node constraint"])

prop("X05", "ShEx shape inheritance (EXTENDS, ABSTRACT) follows its definition",
 "A node satisfies a shape that extends others exactly when its arcs can be partitioned so that each part satisfies the corresponding own or inherited triple expression and the node satisfies the inherited additional constraints; a reference to an extended shape is satisfied by conforming to any non-abstract descendant, and abstract shapes are never satisfied by themselves.",
 ["inputs", "programs"], "every inheritance hierarchy and every neighbourhood",
 "The set of ways to divide the arcs among the parents is exponential and the implementation prunes it; tests only contain a few hierarchies.",
 ["shex_validation/src/engine.rs", "shex_ast/src/ir/schema_ir.rs", "shex_ast/src/ir/shape.rs"],
 [("partition enumeration with feasibility pruning", "shex_validation/src/engine.rs")],
 ["conformance reported for (node, shape)"])

prop("X06", "ShEx results do not depend on order, batching or earlier validations",
 "The conformance reported for a node and a shape depends only on the schema and the data: it is the same when the pair is validated alone or together with any other pairs, in any order, when validation is repeated on the same session, and for any order in which the data's triples or the schema's shapes were written.",
 ["histories", "schedules", "inputs"], "every permutation and grouping of requests, every ordering of data and schema",
 "The engine shares memo tables, hypotheses and pending queues between pairs; tests validate each shape map once in one order.",
 ["shex_validation/src/engine.rs", "shex_validation/src/validator.rs"],
 [("shared typing and pending queue", "shex_validation/src/engine.rs")],
 ["result shape map"])

prop("X07", "Shape maps select exactly the described nodes and report each pair once",
 "For every query shape map, the result contains exactly one verdict for every pair of a selected node and the associated shape and nothing else, where node selectors denote the given IRI, literal or blank node, or every node matched by a triple pattern or query in the current data; START denotes the schema's start expression. Writing a loaded shape map and reading it back changes nothing of this.",
 ["inputs", "histories"], "every shape map, prefix declaration and data graph",
 "Tests use one or two associations; overlapping selectors, patterns with either focus position and repeated associations are not enumerated.",
 ["shex_ast/src/shapemap/node_selector.rs", "shex_ast/src/shapemap/result_shape_map.rs", "shex_ast/src/compact/shapemap_grammar.rs", "shex_validation/src/validator.rs"],
 [("resolution of node selectors", "shex_ast/src/shapemap/node_selector.rs"), ("accumulation of results", "shex_ast/src/shapemap/result_shape_map.rs")],
 ["result shape map"])

prop("X08", "Converting a ShEx schema between its formats preserves its meaning",
 "Writing a loaded schema as compact syntax or as JSON and loading the output again succeeds and gives a schema that judges every node of every graph as the original does; saving a compiled schema and loading it back does too.",
 ["programs", "inputs"], "every schema the compact syntax can express, every output format, every graph",
 "Round trips are tested on a few files; printers and parsers must agree on every construct, operator nesting and escaping.",
 ["shex_ast/src/compact/shex_compact_printer.rs", "shex_ast/src/compact/shex_grammar.rs", "shex_ast/src/ast/schema.rs", "rudof_lib/src/api/shex/implementations"],
 [("compact printer", "shex_ast/src/compact/shex_compact_printer.rs"), ("JSON serialization", "shex_ast/src/ast/serde_string_or_struct.rs"), ("precompiled schema files", "rudof_lib/src/api/shex/implementations")],
 ["output of schema serialization, then validation results"])

prop("H01", "SHACL value constraints flag exactly the violating value nodes",
 "For node and property shapes, the validation report contains a result for a focus node and a value exactly when the value violates the shape's class, datatype, node kind, value range, string length, pattern, language, in or has-value constraint as defined by the SHACL standard, and for cardinality and unique-language constraints exactly when the set of value nodes violates them.",
 ["inputs", "programs"], "every combination of constraint parameters and value nodes (all term kinds, ill-formed literals, non-ASCII text)",
 "The W3C SHACL suite is not part of the test run here; the remaining tests sample a few values per component.",
 ["shacl/src/validator/constraints/core/value", "shacl/src/validator/constraints/core/value_range", "shacl/src/validator/constraints/core/string_based", "shacl/src/validator/constraints/core/cardinality", "shacl/src/validator/constraints/core/other"],
 [("constraint component validators", "shacl/src/validator/constraints/core")],
 ["validation report"])

prop("H02", "SHACL logical, shape-based and closed constraints compose as defined",
 "A value node is reported for sh:and, sh:or, sh:xone, sh:not, sh:node, sh:qualifiedValueShape (with disjoint siblings) or sh:closed exactly when the number of constituent shapes it conforms to, or its outgoing properties, violate the constraint, with nested property shapes evaluated on every value node, to any nesting depth.",
 ["inputs", "programs"], "every nesting of shapes without recursion and every graph",
 "Tests contain isolated uses of each operator; conformance of nested shapes is cached and shared, so deep and repeated nesting is where they can differ.",
 ["shacl/src/validator/constraints/core/logical", "shacl/src/validator/constraints/core/shape_based", "shacl/src/validator/constraints/core/other/closed.rs", "shacl/src/validator/engine/validate.rs"],
 [("recursive shape validation with per-node result cache", "shacl/src/validator/engine/validate.rs")],
 ["validation report"])

prop("H03", "SHACL property-pair constraints compare all pairs of values",
 "For sh:equals, sh:disjoint, sh:lessThan and sh:lessThanOrEquals, a focus node is reported exactly when the two sets of values violate the constraint as the SHACL standard defines it, incomparable values counting as violations of the ordering constraints.",
 ["inputs", "programs"], "every pair of value sets over all datatypes",
 "Tests contain one conforming and one violating example per component.",
 ["shacl/src/validator/constraints/core/property_pair"],
 [("pair comparison validators", "shacl/src/validator/constraints/core/property_pair")],
 ["validation report"])

prop("H04", "SHACL targets select exactly the focus nodes the standard defines",
 "The focus nodes of a shape are exactly the declared target nodes, the instances of the target classes through any chain of subclasses, the subjects or objects of the target properties, and, for shapes that are classes, their instances; deactivated shapes have none.",
 ["inputs", "programs"], "every target declaration and every class hierarchy",
 "Tests use hierarchies of depth at most one.",
 ["shacl/src/validator/engine/native.rs", "shacl/src/validator/index/class.rs", "shacl/src/validator/engine/sparql.rs", "shacl/src/rdf/parsers"],
 [("class index", "shacl/src/validator/index/class.rs")],
 ["focus nodes appearing in the validation report"])

prop("H05", "SHACL property paths reach exactly the nodes their expression denotes",
 "The value nodes of a property shape are exactly the nodes reachable from the focus node by the path built from predicates, inverse, sequence, alternative, zero-or-more, one-or-more and zero-or-one paths, each node counted once, and evaluation terminates on cyclic data.",
 ["inputs", "programs"], "every path expression and every graph including cyclic ones",
 "Closure operators over cyclic graphs and nested inverses form an infinite family; tests check a few paths.",
 ["rudof_rdf/src/rdf_core/neighs_rdf.rs", "rudof_rdf/src/rdf_core/shacl_path.rs", "shacl/src/rdf/parsers"],
 [("path evaluation", "rudof_rdf/src/rdf_core/neighs_rdf.rs")],
 ["value nodes in the validation report"])

prop("H06", "SHACL validation engines agree",
 "Validating the same data against the same shapes with the native engine and with the query-based engine gives the same verdict and the same set of violated (focus node, path, value, constraint, source shape) results.",
 ["inputs", "programs", "configurations"], "every shapes graph using the core constraints both engines support, and every data graph",
 "No test compares the two engines on anything but fixed examples.",
 ["shacl/src/validator/engine/native.rs", "shacl/src/validator/engine/sparql.rs", "shacl/src/validator/constraints/core"],
 [("two implementations of each constraint", "shacl/src/validator/constraints")],
 ["validation reports of both engines"])

prop("H07", "SHACL reports depend only on the data and the shapes",
 "The set of results is the same whatever the order of the shapes and triples in the input, however many other shapes with targets are validated in the same run, and however often validation is repeated; the report conforms exactly when it has no result, and each result carries the severity and source of the shape that produced it.",
 ["schedules", "histories", "inputs"], "every thread schedule, every ordering and every superset of independent shapes",
 "Shapes are validated in parallel sharing a cache; tests observe one schedule and one grouping.",
 ["shacl/src/validator/processor/mod.rs", "shacl/src/validator/cache", "shacl/src/validator/report", "shacl/src/ir/dg"],
 [("level-wise parallel validation with shared cache", "shacl/src/validator/processor/mod.rs")],
 ["validation report"])

prop("H08", "Writing SHACL shapes as RDF and reading them back preserves their meaning",
 "For every shapes graph that can be loaded and every RDF format, writing the loaded shapes succeeds, the written document can be loaded again, and validation with it gives the same results as with the original, for all data: the same targets, paths, constraints with their parameters, severities, deactivations and references between shapes.",
 ["inputs"], "every shapes graph, every RDF format, every data graph",
 "A test compares the serialization of a few shapes; the meaning of the written document is a function of the whole shapes graph and all data.",
 ["shacl/src/rdf/writer.rs", "shacl/src/ir/component.rs", "shacl/src/ir/node_shape.rs", "shacl/src/ir/property_shape.rs", "rudof_lib/src/api/shacl/implementations/serialize_shacl_schema.rs"],
 [("IRComponent::register", "shacl/src/ir/component.rs")],
 ["serialized shapes", "validation report"])

prop("H09", "SHACL SPARQL-based constraints report exactly the solutions of their query",
 "For every sh:sparql constraint, every shape it appears in and every data graph, in both engines: with $this pre-bound to the focus node wherever it occurs in the query (nested groups, filters, optional parts, unions, EXISTS and sub-queries included), $PATH standing for the property path of the shape and the prefixes taken from sh:prefixes (through owl:imports), each solution of the SELECT query gives one result with the value and path that the solution binds (else the focus node and the shape's path), and there is no other; a deactivated constraint gives none. How the query is written (keywords' case, optional WHERE, ? or $, comments, strings, abbreviated IRIs) makes no difference.",
 ["inputs"], "every query of the fragment without aggregates, every shape, every data graph",
 "Tests run a few fixed queries; the treatment of the query text and of pre-binding depends on the shape of the query, and the results on the data.",
 ["shacl/src/validator/constraints/sparql", "shacl/src/rdf/parsers/sparql/basic.rs", "shacl/src/ir/components/basic_sparql.rs", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"],
 [("BasicSparql::validate_sparql", "shacl/src/validator/constraints/sparql/basic_validator.rs")],
 ["validation report"])

prop("V01", "Every document of validation results shows the results, in any format and order",
 "For every validation (ShEx or SHACL), the document written in any available format (tables with and without details, CSV, JSON, the minimal summary, and each RDF format) has exactly one row or node for each result, with the same node, shape, status or severity, component, path and value, and nothing else; the counts and the overall verdict follow from the results; rows are ordered as the sort mode asks; and blank nodes made for an RDF report never coincide with blank nodes of the data that it mentions.",
 ["inputs", "configurations"], "every set of results, every format and every sort mode",
 "Tests render a few results; which rows coincide, how terms are abbreviated and which blank node labels are taken depend on the whole data.",
 ["rudof_lib/src/display", "rudof_lib/src/api/shacl/implementations/serialize_validation_results.rs", "shacl/src/validator/report", "shex_validation/src"],
 [("ValidationReport::to_rdf", "shacl/src/validator/report/mod.rs")],
 ["serialized validation results"])

prop("G01", "The RDF store behaves as a set of triples under every history of updates",
 "After any sequence of loads, merges, additions and removals, the triples listed, the answers to every pattern of fixed and free positions, the neighbourhoods of every node and the answers to queries are exactly those of the set obtained by applying the operations in order; blank nodes of separately loaded documents are kept apart or shared as the documents' labels say, and duplicates count once.",
 ["histories", "inputs"], "every sequence of updates interleaved with queries",
 "The query index is built lazily from the graph and cached; tests load once and query once.",
 ["rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "sparql_service/src/srdf_data/rdf_data.rs", "rudof_rdf/src/rdf_core/neighs_rdf.rs"],
 [("lazily built query store", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs")],
 ["triples, pattern matches, query results"])

prop("G02", "Serializing RDF data and reading it back gives an isomorphic graph",
 "For every graph and every output format, the serialized text can be loaded again in that format and yields a graph isomorphic to the original, with the same literals, language tags, datatypes and IRIs.",
 ["inputs", "configurations"], "every graph and every format",
 "Tests serialize a few fixed graphs in one format.",
 ["rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "rudof_lib/src/api/data/implementations/serialize_data.rs"],
 [("serialization and parsing", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs")],
 ["serialized data"])

prop("G03", "Comparison of literals is a consistent order on comparable values",
 "Comparing numeric literals of any numeric datatypes orders them by their mathematical value, booleans, strings and dates by their own order, and values of different kinds are never ordered; the comparison is antisymmetric and transitive, agrees with equality of values, and does not depend on the lexical form.",
 ["inputs"], "every pair and triple of literals of the supported datatypes",
 "Order laws quantify over pairs and triples of values across datatypes; tests check chosen pairs.",
 ["rudof_rdf/src/rdf_core/term/literal/literal.rs", "rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs"],
 [("partial order on literals", "rudof_rdf/src/rdf_core/term/literal/literal.rs")],
 ["comparison results, numeric facets and SHACL ranges"])

prop("P01", "Prefix maps resolve and abbreviate IRIs consistently",
 "Resolving a prefixed name gives the IRI bound to its prefix followed by the local part and fails exactly when the prefix is unbound; abbreviating an IRI gives a name that resolves to the same IRI, using a longest matching namespace, or the full IRI when none matches; later declarations of a prefix replace earlier ones and merging two maps is the same as declaring the second map's entries in order.",
 ["histories", "inputs"], "every sequence of declarations, removals and merges and every IRI",
 "Overlapping namespaces, empty prefixes and redeclarations form a product space; tests use two or three prefixes.",
 ["prefixmap/src/prefix_map.rs", "prefixmap/src/iri/iri_ref.rs"],
 [("longest prefix match", "prefixmap/src/prefix_map.rs")],
 ["resolved and abbreviated names"])

prop("P02", "IRI normalization only wraps bare absolute IRIs, and only in lax mode",
 "In lax mode a node or shape argument that is a bare absolute IRI is treated as the same IRI in angle brackets, and every other argument (already bracketed, prefixed, blank node, complex selector) is left unchanged; in strict mode no argument is changed; normalizing twice is the same as normalizing once.",
 ["inputs", "configurations"], "every argument string in both modes",
 "Documented as a rule over all strings; tests list examples.",
 ["rudof_lib/src/utils/utils.rs", "docs/src/internals/iri-normalization.md"],
 [("normalization function", "rudof_lib/src/utils/utils.rs")],
 ["effect on shape map and node arguments"])

prop("L01", "A session is a faithful state machine over its loaded resources",
 "After any sequence of load, reset, prefix, validate and query operations, an operation succeeds exactly when the resources it needs have been loaded and not reset since, and its result is the one obtained by a fresh session given only the currently loaded resources: nothing from replaced or reset resources influences it.",
 ["histories"], "every sequence of session operations",
 "Tests exercise one load followed by one use; the number of histories is unbounded and stale caches only show on particular sequences.",
 ["rudof_lib/src/rudof.rs", "rudof_lib/src/api"],
 [("session fields and reset operations", "rudof_lib/src/rudof.rs"), ("operation implementations", "rudof_lib/src/api")],
 ["success or failure of each operation, and its output"])

prop("L02", "A failed operation leaves the session unchanged",
 "When a load, prefix or validation operation reports an error, every later operation behaves as if the failed one had never been requested.",
 ["histories", "fault_sequences"], "every operation failing at any point of any history",
 "Tests check that errors are reported, not what the session looks like afterwards.",
 ["rudof_lib/src/api", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"],
 [("operation implementations", "rudof_lib/src/api")],
 ["results of operations after an error"])

prop("L03", "Session prefixes apply to every language and obey their edit operations",
 "Adding, removing, renaming and copying session prefixes changes the session's bindings exactly as requested and reports an error, without change, when the request cannot be met; ShExC schemas, Turtle, TriG and N3 data and shapes graphs, and SPARQL queries loaded afterwards may use the session's prefixes, a document's own declaration of the same prefix wins, and shape maps and node selectors resolve through the prefixes of the loaded data and schema; a prefixed name always denotes the namespace followed by the local name.",
 ["histories"], "every sequence of prefix edits interleaved with loads",
 "Tests edit one prefix at a time.",
 ["rudof_lib/src/api/prefixes", "rudof_lib/src/utils/prefix_header.rs"],
 [("prefix header injection", "rudof_lib/src/utils/prefix_header.rs")],
 ["prefix listing and loads after edits"])

prop("K01", "Property-graph validation accepts exactly the conforming elements",
 "A node or edge of a property graph conforms to a type exactly when its labels and its record of properties belong to the set the type's expression denotes (labels combined by and and or, referenced types, optional parts, open and closed records, property types with cardinalities and conditions), and an edge also when its endpoints conform to the types it requires.",
 ["inputs", "programs"], "every type expression and every property graph element",
 "Tests sample a few types; the semantics is a set construction over nested operators.",
 ["pgschema/src/formal_base_type.rs", "pgschema/src/record_type.rs", "pgschema/src/value_type.rs", "pgschema/src/label_property_spec.rs", "pgschema/src/type_map.rs"],
 [("formal base types", "pgschema/src/formal_base_type.rs")],
 ["result associations of a type map"])

prop("C01", "Converting a tabular profile to ShEx preserves its constraints",
 "The schema obtained from a tabular application profile accepts exactly the nodes that satisfy the profile's rows: for each shape, each property's mandatory and repeatable flags give its cardinality and its node type, datatype, value list, pattern or shape reference its admissible values.",
 ["programs", "inputs"], "every profile and every graph",
 "Tests compare a few converted profiles textually.",
 ["dctap/src/tap_reader.rs", "shapes_converter/src/tap_to_shex/tap2shex.rs"],
 [("profile conversion", "shapes_converter/src/tap_to_shex/tap2shex.rs")],
 ["validation with the converted schema"])

prop("C02", "Schema comparison partitions the properties of the two shapes",
 "Comparing two shapes lists every property of the two exactly once: as common if both mention it, otherwise as belonging only to the shape that mentions it; swapping the shapes swaps the two one-sided lists, and comparing a shape with itself lists no difference.",
 ["programs"], "every pair of comparable shapes",
 "Tests compare two fixed schemas.",
 ["shapes_comparator/src/coshamo.rs", "shapes_comparator/src/coshamo_converter.rs"],
 [("comparison of common shape models", "shapes_comparator/src/coshamo.rs")],
 ["comparison output"])

prop("M01", "Map actions bind keys to matched values, and materialization builds with them",
 "Validating with a schema whose triple constraints carry Map actions binds each key only to values of arcs of such a constraint that satisfy its node constraint, binds every key whose constraint a conforming node matched, and does not change any verdict; keys may be written as IRIs or as prefixed names. A saved map state can be loaded again with the same terms. Materializing a schema with a map state gives exactly one triple for every bound key of a constraint with a simple value, one fresh blank node with its own content for every constraint whose value is a shape, and nothing else, from the given root or a fresh blank node; recursive schemas are refused with an error.",
 ["programs", "inputs", "histories"], "every schema with Map actions, every data graph, every map state",
 "Tests materialize a few hand-made schemas; that actions run for matching values only, survive being saved and agree between validation and materialization depends on combinations of constraints, values and ways of writing keys.",
 ["shex_ast/src/materialize/materializer.rs", "shex_ast/src/ir/actions/map_action_extension.rs", "shex_ast/src/ir/map_state.rs", "shex_ast/src/ir/ast2ir.rs", "rudof_lib/src/api/materialize"],
 [("Map action extension", "shex_ast/src/ir/actions/map_action_extension.rs"), ("materialization", "shex_ast/src/materialize/materializer.rs")],
 ["serialized map state, materialized graph"])

prop("Q01", "SPARQL queries over the data give exactly the answers of their algebra",
 "Running a SPARQL query over loaded RDF data gives the answers that the SPARQL algebra defines: a SELECT has exactly the projected solutions as rows (each once with DISTINCT, as many as LIMIT and OFFSET leave, in the order of ORDER BY, unbound variables left unbound, counts per group exact), an ASK is true exactly if there is a solution, a CONSTRUCT gives exactly the triples of its template under the solutions, written in the requested RDF format. The JSON, CSV and table forms of the results show the same rows under the right variables.",
 ["programs", "inputs"], "every query and every data graph",
 "Tests run a few fixed queries over fixed data; whether rows, unbound variables, graphs and formats are right depends on combinations of patterns, optional parts, filters, modifiers and data.",
 ["rudof_lib/src/api/query/implementations/run_query.rs", "rudof_lib/src/api/query/implementations/serialize_query_results.rs", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "rudof_rdf/src/rdf_impl/backend.rs", "rudof_rdf/src/rdf_core/query"],
 [("queries on in-memory data", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"), ("results and tables", "rudof_rdf/src/rdf_core/query/query_solutions.rs")],
 ["query results"])

prop("N01", "Generated data is reproducible and independent of parallelism",
 "Data generated from a schema with a fixed seed and entity count is the same on every run with the same configuration, contains the requested number of entities, and every value generated for a property satisfies the property's declared datatype and cardinality.",
 ["configurations", "schedules", "programs"], "every seed, schema, and number of threads",
 "Tests run one configuration once.",
 ["rudof_generate/src/lib.rs", "rudof_generate/src/parallel_generation.rs", "rudof_generate/src/shape_processing.rs"],
 [("seeded generation", "rudof_generate/src/parallel_generation.rs")],
 ["generated graph"])
