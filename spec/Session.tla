------------------------------- MODULE Session -------------------------------
(* A rudof session as a machine over its loaded resources. Documents are         *)
(* abstract: their names are alias/local pairs resolved by declarations, so the  *)
(* effect of session prefixes is part of the semantics. Every operation either    *)
(* succeeds and moves to its successor state, or fails and leaves the state.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}

------------------------------------------------------------------------------
(* prefix maps: sets of <<alias, namespace>>, one per alias *)
Has(pm, a) == \E x \in pm : x[1] = a
Ns(pm, a) == (CHOOSE x \in pm : x[1] = a)[2]
Put(pm, a, ns) == {x \in pm : x[1] # a} \cup {<<a, ns>>}
Del(pm, a) == {x \in pm : x[1] # a}
Over(pm, new) == {x \in pm : ~Has(new, x[1])} \cup new
(* a name is <<"<", iri>>, <<"=", literal>>, <<"?", variable>> or <<alias, local>>; Bad when it has no meaning *)
Bad == "!"
Res(pm, n) == IF n[1] \in {"<", "=", "?"} THEN n[2] ELSE IF Has(pm, n[1]) THEN Ns(pm, n[1]) \o n[2] ELSE Bad
Known(pm, n) == n[1] \in {"<", "=", "?"} \/ Has(pm, n[1])

RECURSIVE Decls(_, _)
Decls(pm, ds) == IF ds = <<>> THEN pm ELSE Decls(Put(pm, ds[1][1], ds[1][2]), Tail(ds))

(* an RDF document: a sequence of declarations <<"@", alias, ns>> and triples <<s, p, o>> of names *)
RECURSIVE ReadRdf(_, _, _)
ReadRdf(items, pm, ts) ==
  IF items = <<>> THEN [ok |-> TRUE, pm |-> pm, ts |-> ts]
  ELSE LET it == items[1]
       IN IF it[1] = "@" THEN ReadRdf(Tail(items), Put(pm, it[2], it[3]), ts)
          ELSE IF \A i \in 2..4 : Known(pm, it[i]) THEN ReadRdf(Tail(items), pm, ts \cup {<<Res(pm, it[2]), Res(pm, it[3]), Res(pm, it[4])>>})
          ELSE [ok |-> FALSE, pm |-> {}, ts |-> {}]
Rdf(d, pre) == IF d.bad # "" THEN [ok |-> FALSE, pm |-> {}, ts |-> {}]
               ELSE ReadRdf(d.items, IF d.hdr THEN pre ELSE {}, {})
RECURSIVE RdfAll(_, _, _)
RdfAll(ds, pre, acc) ==
  IF ds = <<>> THEN acc
  ELSE LET r == Rdf(ds[1], pre)
       IN IF r.ok THEN RdfAll(Tail(ds), pre, [ok |-> TRUE, pm |-> Over(acc.pm, r.pm), ts |-> acc.ts \cup r.ts])
          ELSE [ok |-> FALSE, pm |-> {}, ts |-> {}]

(* a ShEx schema: shapes [label, tcs], a triple constraint is [p, min, max, ref] (max < 0: unbounded) *)
Shex(d, pre) ==
  LET pm == Decls(IF d.hdr THEN pre ELSE {}, d.decls)
      names == {d.shapes[i].label : i \in 1..Len(d.shapes)} \cup UNION {{t.p : t \in Rng(d.shapes[i].tcs)} : i \in 1..Len(d.shapes)}
  IN IF d.bad = "" /\ \A n \in names : Known(pm, n)
     THEN [ok |-> TRUE, pm |-> pm,
           shapes |-> [i \in 1..Len(d.shapes) |->
             [label |-> Res(pm, d.shapes[i].label),
              tcs |-> [j \in 1..Len(d.shapes[i].tcs) |-> LET t == d.shapes[i].tcs[j]
                       IN [p |-> Res(pm, t.p), min |-> t.min, max |-> t.max, ref |-> t.ref, act |-> t.act]]]],
           start |-> d.start]
     ELSE [ok |-> FALSE, pm |-> {}, shapes |-> <<>>, start |-> 0]

RECURSIVE Conf(_, _, _, _)
Conf(ts, shapes, n, i) ==
  \A t \in Rng(shapes[i].tcs) :
    LET objs == {x[3] : x \in {y \in ts : y[1] = n /\ y[2] = t.p}}
    IN /\ Cardinality(objs) >= t.min /\ (t.max < 0 \/ Cardinality(objs) <= t.max)
       /\ t.ref = 0 \/ \A o \in objs : Conf(ts, shapes, o, t.ref)      \* references go to later shapes
ConfLabel(ts, s, n, l) ==
  IF l = "START" THEN s.start > 0 /\ Conf(ts, s.shapes, n, s.start)
  ELSE \E i \in 1..Len(s.shapes) : s.shapes[i].label = l /\ Conf(ts, s.shapes, n, i)

(* the SHACL shapes that a graph contains and what they report: min and max counts of paths *)
A == "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
SH(x) == "http://www.w3.org/ns/shacl#" \o x
\* RDF that is no shapes graph: a shape whose length is no number or whose datatype is no IRI
Malformed(shts) == \E t \in shts : /\ t[2] \in {SH("minLength"), SH("datatype")} /\ t[3] = "\"x"
                                  /\ \E y \in shts : y[1] = t[1] /\ y[2] = A /\ y[3] = SH("NodeShape")
Val(ts, s, p) == {x[3] : x \in {y \in ts : y[1] = s /\ y[2] = p}}
Num(x) == CHOOSE k \in 0..9 : x = "#" \o ToString(k)
Report(ts, shts) ==
  UNION {UNION {UNION {UNION {
    LET c == Cardinality(Val(ts, f, path))
    IN {<<f, P, "MinCount">> : m \in {m \in Val(shts, P, SH("minCount")) : c < Num(m)}}
       \cup {<<f, P, "MaxCount">> : m \in {m \in Val(shts, P, SH("maxCount")) : c > Num(m)}}
    : path \in Val(shts, P, SH("path"))} : P \in Val(shts, N, SH("property"))} : f \in Val(shts, N, SH("targetNode"))}
    : N \in {x[1] : x \in {y \in shts : y[2] = A /\ y[3] = SH("NodeShape")}}}

(* a query of one triple pattern *)
IsVar(x) == x \in {"?s", "?p", "?o"}
Query(d, pre) ==
  LET pm == Decls(pre, d.decls)
  IN IF d.bad = "" /\ \A i \in 1..3 : Known(pm, d.pat[i])
     THEN [ok |-> TRUE, pat |-> [i \in 1..3 |-> Res(pm, d.pat[i])]] ELSE [ok |-> FALSE, pat |-> <<Bad, Bad, Bad>>]
Answers(ts, pat) == {t \in ts : \A i \in 1..3 : IsVar(pat[i]) \/ t[i] = pat[i]}

------------------------------------------------------------------------------
Off == [l |-> FALSE]
Start == [pre |-> {}, data |-> [k |-> 0, ts |-> {}, pm |-> {}, pg |-> {}],
          sch |-> [l |-> FALSE, id |-> 0, pm |-> {}, shapes |-> <<>>, start |-> 0],
          smap |-> [l |-> FALSE, as |-> <<>>, npm |-> {}, spm |-> {}], sres |-> [l |-> FALSE, v |-> {}, by |-> <<>>],
          map |-> <<"none">>,
          shl |-> [l |-> FALSE, ts |-> {}, pm |-> {}], hres |-> [l |-> FALSE, v |-> {}],
          qry |-> [l |-> FALSE, id |-> 0, pre |-> {}, pat |-> <<Bad, Bad, Bad>>, kind |-> ""], qres |-> [l |-> FALSE, by |-> <<>>],
          pgs |-> [l |-> FALSE, types |-> {}], tm |-> [l |-> FALSE, as |-> <<>>], pgres |-> [l |-> FALSE, v |-> {}, by |-> <<>>],
          tap |-> 0, svc |-> 0, cfg |-> 0]

NoRes == Start.sres
Fail(st) == [ok |-> FALSE, st |-> st, v |-> {}]
Ok(st) == [ok |-> TRUE, st |-> st, v |-> {}]
Out(st, v) == [ok |-> TRUE, st |-> st, v |-> v]

LoadData(st, op) ==
  IF op.pg
  THEN IF \E d \in Rng(op.docs) : d.bad # "" THEN Fail(st)
       ELSE IF op.docs = <<>> THEN Ok(st)
       ELSE LET old == IF op.merge /\ st.data.k = 2 THEN st.data.pg ELSE {}
            IN Ok([st EXCEPT !.data = [k |-> 2, ts |-> {}, pm |-> {}, pg |-> old \cup UNION {Rng(d.facts) : d \in Rng(op.docs)}]])
  ELSE LET keep == op.merge /\ st.data.k = 1
           r == RdfAll(op.docs, st.pre, [ok |-> TRUE, pm |-> IF keep THEN st.data.pm ELSE {}, ts |-> IF keep THEN st.data.ts ELSE {}])
       IN IF ~r.ok \/ op.badopt THEN Fail(st)
          ELSE IF op.docs = <<>> /\ op.pfx = <<>> THEN Ok(st)
          ELSE Ok([st EXCEPT !.data = [k |-> 1, ts |-> r.ts, pm |-> Decls(r.pm, op.pfx), pg |-> {}]])

LoadShapeMap(st, op) ==
  IF st.data.k # 1 \/ ~st.sch.l \/ op.doc.bad # "" THEN Fail(st)
  ELSE IF \E a \in Rng(op.doc.as) : ~Known(st.data.pm, a[1]) \/ (a[2] # <<"<", "START">> /\ ~Known(st.sch.pm, a[2])) THEN Fail(st)
  ELSE Ok([st EXCEPT !.smap = [l |-> TRUE, npm |-> st.data.pm, spm |-> st.sch.pm,
                               as |-> [i \in 1..Len(op.doc.as) |-> <<Res(st.data.pm, op.doc.as[i][1]), Res(st.sch.pm, op.doc.as[i][2])>>]]])

AddNode(st, op) ==
  LET npm == IF st.data.k = 1 THEN st.data.pm ELSE st.smap.npm
      spm == IF st.sch.l THEN st.sch.pm ELSE st.smap.spm
  IN IF op.bad # "" \/ ~Known(npm, op.node) \/ ~Known(spm, op.shape) THEN Fail(st)
     ELSE Ok([st EXCEPT !.smap = [l |-> TRUE, npm |-> npm, spm |-> spm, as |-> Append(@.as, <<Res(npm, op.node), Res(spm, op.shape)>>)]])

ValidateShex(st) ==
  IF st.data.k # 1 \/ ~st.sch.l \/ ~st.smap.l THEN Fail(st)
  ELSE LET v == {<<a[1], a[2], IF ConfLabel(st.data.ts, st.sch, a[1], a[2]) THEN "yes" ELSE "no">> : a \in Rng(st.smap.as)}
           by == <<st.data, st.sch, st.smap>>
       IN Out([st EXCEPT !.sres = [l |-> TRUE, v |-> v, by |-> by], !.map = <<"by", st.data, st.sch, st.smap>>], v)

ValidateShacl(st) ==
  IF st.data.k # 1 \/ ~st.shl.l THEN Fail(st)
  ELSE LET v == Report(st.data.ts, st.shl.ts) IN Out([st EXCEPT !.hres = [l |-> TRUE, v |-> v]], v)

RunQuery(st) ==
  IF st.data.k # 1 \/ ~st.qry.l \/ st.qry.kind = "describe" THEN Fail(st)
  ELSE LET ans == Answers(st.data.ts, st.qry.pat)
           v == IF st.qry.kind = "ask" THEN {<<IF ans # {} THEN "yes" ELSE "no">>} ELSE ans
       IN Out([st EXCEPT !.qres = [l |-> TRUE, by |-> <<st.qry, st.data>>]], v)

Facts(pg, n, k) == {x[3] : x \in {y \in pg : y[1] = n /\ y[2] = k}}
ConfPg(pg, types, n, t) == \E x \in types : x[1] = t /\ Facts(pg, n, "label") = {x[2]} /\ Facts(pg, n, "key") = {x[3]}
ValidatePg(st) ==
  IF st.data.k # 2 \/ ~st.pgs.l \/ ~st.tm.l THEN Fail(st)
  ELSE IF \E a \in Rng(st.tm.as) : ~\E x \in st.data.pg : x[1] = a[1] THEN Fail(st)
  ELSE LET v == {<<a[1], a[2], IF ConfPg(st.data.pg, st.pgs.types, a[1], a[2]) THEN "yes" ELSE "no">> : a \in Rng(st.tm.as)}
       IN Out([st EXCEPT !.pgres = [l |-> TRUE, v |-> v, by |-> <<st.data, st.pgs, st.tm>>]], v)

Step(st, op) ==
  CASE op.op = "load_data" -> LoadData(st, op)
    [] op.op = "reset_data" -> Ok([st EXCEPT !.data = Start.data])
    [] op.op = "has_data" -> Out(st, {<<IF st.data.k # 0 THEN "yes" ELSE "no">>})
    [] op.op = "list_data" -> IF st.data.k = 1 THEN Out(st, st.data.ts) ELSE Fail(st)
    [] op.op = "load_shex" -> LET r == Shex(op.doc, st.pre)
                              IN IF r.ok THEN Ok([st EXCEPT !.sch = [l |-> TRUE, id |-> op.doc.id, pm |-> r.pm, shapes |-> r.shapes, start |-> r.start]])
                                 ELSE Fail(st)
    [] op.op = "check_shex" -> Out(st, {<<IF Shex(op.doc, st.pre).ok THEN "yes" ELSE "no">>})
    [] op.op = "reset_shex_schema" -> Ok([st EXCEPT !.sch = Start.sch, !.map = Start.map])
    [] op.op = "reset_shex" -> Ok([st EXCEPT !.sch = Start.sch, !.smap = Start.smap, !.sres = Start.sres, !.map = Start.map])
    [] op.op = "load_shapemap" -> LoadShapeMap(st, op)
    [] op.op = "add_node_shape" -> AddNode(st, op)
    [] op.op = "reset_shapemap" -> Ok([st EXCEPT !.smap = Start.smap])
    [] op.op = "validate_shex" -> ValidateShex(st)
    [] op.op = "shex_results" -> IF st.sres.l THEN Out(st, st.sres.v) ELSE Out(st, {<<"none">>})
    [] op.op = "load_shacl" -> LET r == Rdf(op.doc, st.pre) IN IF r.ok /\ ~Malformed(r.ts) THEN Ok([st EXCEPT !.shl = [l |-> TRUE, ts |-> r.ts, pm |-> r.pm]]) ELSE Fail(st)
    [] op.op = "extract_shacl" -> IF st.data.k = 1 /\ ~Malformed(st.data.ts) THEN Ok([st EXCEPT !.shl = [l |-> TRUE, ts |-> st.data.ts, pm |-> st.data.pm]]) ELSE Fail(st)
    [] op.op = "reset_shacl_shapes" -> Ok([st EXCEPT !.shl = Start.shl])
    [] op.op = "reset_shacl" -> Ok([st EXCEPT !.shl = Start.shl, !.hres = Start.hres])
    [] op.op = "validate_shacl" -> ValidateShacl(st)
    [] op.op = "shacl_report" -> IF st.hres.l THEN Out(st, st.hres.v) ELSE Fail(st)
    [] op.op = "load_query" -> LET r == Query(op.doc, st.pre)
                               IN IF r.ok THEN Ok([st EXCEPT !.qry = [l |-> TRUE, id |-> op.doc.id, pre |-> st.pre, pat |-> r.pat, kind |-> op.doc.kind]]) ELSE Fail(st)
    [] op.op = "run_query" -> RunQuery(st)
    [] op.op = "reset_query" -> Ok([st EXCEPT !.qry = Start.qry])
    [] op.op = "reset_query_results" -> Ok([st EXCEPT !.qry = Start.qry, !.qres = Start.qres])
    [] op.op = "load_pgschema" -> IF op.doc.bad # "" THEN Fail(st) ELSE Ok([st EXCEPT !.pgs = [l |-> TRUE, types |-> Rng(op.doc.types)]])
    [] op.op = "reset_pgschema" -> Ok([st EXCEPT !.pgs = Start.pgs])
    [] op.op = "load_typemap" -> IF op.doc.bad # "" THEN Fail(st) ELSE Ok([st EXCEPT !.tm = [l |-> TRUE, as |-> op.doc.as]])
    [] op.op = "reset_typemap" -> Ok([st EXCEPT !.tm = Start.tm])
    [] op.op = "validate_pgschema" -> ValidatePg(st)
    [] op.op = "pg_report" -> IF st.pgres.l THEN Out(st, st.pgres.v) ELSE Fail(st)
    [] op.op = "reset_pg_validation" -> Ok([st EXCEPT !.pgs = Start.pgs, !.tm = Start.tm, !.pgres = Start.pgres])
    [] op.op = "load_dctap" -> IF op.bad # "" THEN Fail(st) ELSE Ok([st EXCEPT !.tap = op.id])
    [] op.op = "reset_dctap" -> Ok([st EXCEPT !.tap = 0])
    [] op.op = "load_service" -> IF op.bad # "" THEN Fail(st) ELSE Ok([st EXCEPT !.svc = op.id])
    [] op.op = "reset_service" -> Ok([st EXCEPT !.svc = 0])
    [] op.op = "load_rdf_config" -> IF op.bad # "" THEN Fail(st) ELSE Ok([st EXCEPT !.cfg = op.id])
    [] op.op = "reset_rdf_config" -> Ok([st EXCEPT !.cfg = 0])
    [] op.op = "load_map_state" -> IF op.bad # "" THEN Fail(st) ELSE Ok([st EXCEPT !.map = <<"doc", op.id>>])
    [] op.op = "map_state" -> IF Len(st.map) > 1 THEN Ok(st) ELSE Fail(st)
    [] op.op = "add_prefix" -> IF op.bad # "" THEN Fail(st) ELSE Ok([st EXCEPT !.pre = Put(@, op.alias, op.iri)])
    [] op.op = "remove_prefix" -> IF Has(st.pre, op.alias) THEN Ok([st EXCEPT !.pre = Del(@, op.alias)]) ELSE Fail(st)
    [] op.op = "rename_prefix" -> IF Has(st.pre, op.old) /\ op.bad = "" THEN Ok([st EXCEPT !.pre = Put(Del(@, op.old), op.new, Ns(@, op.old))]) ELSE Fail(st)
    [] op.op = "copy_prefix" -> IF Has(st.pre, op.old) /\ op.bad = "" THEN Ok([st EXCEPT !.pre = Put(@, op.new, Ns(@, op.old))]) ELSE Fail(st)
    [] op.op = "prefixes" -> Out(st, st.pre)
    [] op.op = "reset_all" -> Ok(Start)
    [] op.op = "snapshot" -> Ok(st)
==============================================================================
