from mkplant import *
PY = r'''#!/bin/bash
# a session through the Python module built in the current directory
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cat > "$D/t.py" <<'EOS'
import pyrudof
from pyrudof import *
def session(): return Rudof(RudofConfig())
def fails(f):
    try: f()
    except Exception: return True
    return False
%s
EOS
PYTHONPATH=$PWD/target/vp/py timeout 120 python3 "$D/t.py"
'''
plant("L01-a", "L01", [("rudof_lib/src/api/core/implementations/reset_all.rs", "    rudof.shapemap = None;\n", "")],
 "a shape map loaded before reset_all, then a new schema and new data without a shape map", "the shape map survives the reset and is used with the new schema", PY % '''
r = session()
r.read_data("<http://e/a> <http://e/p> 1 ."); r.read_shex("<http://e/S> { <http://e/p> . }"); r.read_shapemap("<http://e/a>@<http://e/S>"); r.validate_shex()
r.reset_all()
r.read_data("<http://e/b> <http://e/p> 1 ."); r.read_shex("<http://e/S> { <http://e/p> . }")
assert fails(r.validate_shex)
''')
plant("L02-a", "L02", [("rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs", "    let shacl_schema = ShaclParser::new(rdf_data)\n", "    rudof.shacl_shapes = None; // the previous shapes are not needed any more\n    let shacl_schema = ShaclParser::new(rdf_data)\n"),
 ("rudof_lib/src/api/shacl/implementations/load_shacl_schema.rs", "    rudof.shacl_shapes = Some(\n        shacl_schema\n            .try_into()\n            .map_err(|e: IRError| ShaclError::FailedParsingShaclSchema {\n                source_name: schema.source_name(),", "    rudof.shacl_shapes.replace(\n        shacl_schema\n            .try_into()\n            .map_err(|e: IRError| ShaclError::FailedParsingShaclSchema {\n                source_name: schema.source_name(),")],
 "a document that is RDF but not a shapes graph, loaded when there are shapes already", "the failed load discards the shapes loaded before", PY % '''
r = session()
S = "@prefix sh: <http://www.w3.org/ns/shacl#> . @prefix : <http://e/> . "
r.read_data("<http://e/a> <http://e/p> 1 ."); r.read_shacl(S + ":S a sh:NodeShape ; sh:targetNode :a ; sh:property [ sh:path :p ; sh:minCount 2 ] .")
assert fails(lambda: r.read_shacl("this is not a shapes graph"))
assert fails(lambda: r.read_shacl(S + ":S a sh:NodeShape ; sh:property [ sh:path [ sh:inversePath 1 ] ; sh:minCount 2 ] ."))
r.validate_shacl()
assert "ersult" in r.serialize_shacl_validation_results(ResultShaclValidationFormat.Turtle).replace("esu", "ersu")
''')
SHELL = r'''#!/bin/bash
# an interactive session of the rudof command built in the current directory
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
R=$PWD/target/debug/rudof; cd "$D"; export HOME="$D"
'''
plant("L03-a", "L03", [("rudof_lib/src/api/prefixes/implementations/rename_prefix.rs", "    pm.add_prefix(new_alias, iri);\n", "    if PrefixMap::find(pm, new_alias).is_none() {\n        pm.add_prefix(new_alias, iri);\n    }\n"), ("rudof_lib/src/api/prefixes/implementations/rename_prefix.rs", "errors::PrefixesError};\n", "errors::PrefixesError};\nuse prefixmap::PrefixMap;\n")],
 "a prefix renamed to a name that has a binding already", "the renamed binding is lost and the old one of the new name is kept", SHELL + r'''
printf 'x:s x:p 1 .\n' > d.ttl
printf 'prefixes add a http://a/\nprefixes add x http://x/\nprefixes rename a x\ndata d.ttl -r ntriples\nexit\n' | timeout 60 "$R" shell > o 2>&1
cat o; grep -q '<http://a/s> <http://a/p>' o
''')
