----------------------------- MODULE StoreTrace -----------------------------
(* Judges recorded histories of stores. ev.ops[k] with ev.obs[k] = [fail |-> "", v |-> observation]. *)
EXTENDS Store, TraceChecker

RECURSIVE Replay(_, _, _)
Replay(ev, k, st) ==
  IF k > Len(ev.ops) THEN [ok |-> TRUE, want |-> ""]
  ELSE LET op == ev.ops[k]
       IN IF k > Len(ev.obs) THEN [ok |-> FALSE, want |-> [step |-> k, graph |-> st[op.g], why |-> "no observation"]]
          ELSE LET st2 == Update(st, k, op, ev)
          IN IF ev.obs[k].fail = "" /\ Agrees(st[op.g], st2[op.g], op, ev, ev.obs[k].v) THEN Replay(ev, k + 1, st2)
          ELSE [ok |-> FALSE, want |-> [step |-> k, graph |-> st2[op.g], why |-> "disagrees"]]
JudgeStore(ev) == Replay(ev, 1, [h \in 1..2 |-> {}])
==============================================================================
