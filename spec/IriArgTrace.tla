---------------------------- MODULE IriArgTrace ------------------------------
(* ev.s: the argument; ev.sel: how the generator built it when this is a complex selector; ev.lax, ev.strict: *)
(* what the code made of it, each [add |-> set of nodes (or "error"), info |-> ...]. A blank node of the shape *)
(* position never occurs. ev.pos is "node" or "shape".                                                        *)
EXTENDS IriArg, TraceChecker

Nodes(ev, mode) ==
  IF ev.sel.k = "subjects" THEN [k |-> "set", v |-> {ev.data[i].s : i \in {j \in DOMAIN ev.data : ev.data[j].p = ev.sel.p}}]
  ELSE IF ev.sel.k = "literal" THEN [k |-> "set", v |-> {ev.sel.show}]
  ELSE LET d == Denote(Norm(ev.s, mode), PutAll(Empty, ev.pm, 1))
       IN IF d.k = "node" THEN [k |-> "set", v |-> {d.v}] ELSE d

AddOk(ev, mode, w) == LET o == ev[mode].add
                      IN CASE w.k = "set" -> o.k = "set" /\ SeqSet(o.v) = w.v /\ Len(o.v) = Cardinality(w.v)
                           [] w.k = "error" -> o.k = "error"
                           [] OTHER -> TRUE
\* every node of the data carries a mark of its own; the description of a node shows its marks
Marks(ev, ns) == {ev.data[i].m : i \in {j \in DOMAIN ev.data : ev.data[j].s \in ns}}
InfoOk(ev, mode, w) == LET o == ev[mode].info
                       IN o.k = "none" \/ ev.sel.k = "literal" \/
                          CASE w.k = "set" -> o.k = "set" /\ SeqSet(o.v) = Marks(ev, w.v)
                            [] w.k = "error" -> o.k = "error"
                            [] OTHER -> TRUE
JudgeIriArg(ev) ==
  LET l == Nodes(ev, "lax")
      t == Nodes(ev, "strict")
      ok == /\ Laws(ev.s)
            /\ AddOk(ev, "lax", l) /\ AddOk(ev, "strict", t) /\ InfoOk(ev, "lax", l) /\ InfoOk(ev, "strict", t)
            \* arguments that are no bare IRIs mean the same in both modes, whatever they are
            /\ (~Bare(Trim(ev.s)) => ev.lax = ev.strict)
            /\ (ev.sel.k # "text" => ~Bare(Trim(ev.s)))
  IN [ok |-> ok, want |-> [lax |-> l.k, strict |-> t.k, bare |-> Bare(Trim(ev.s))]]
==============================================================================
