---------------------------- MODULE PrefixTrace ------------------------------
(* Judges recorded histories of prefix maps. *)
EXTENDS Prefix, TraceChecker

RECURSIVE PReplay(_, _, _)
PReplay(ev, k, st) ==
  IF k > Len(ev.ops) THEN [ok |-> TRUE, want |-> ""]
  ELSE IF k > Len(ev.obs) THEN [ok |-> FALSE, want |-> [step |-> k, why |-> "no observation"]]
  ELSE LET op == ev.ops[k]
       IN IF ev.obs[k].fail # "" THEN [ok |-> FALSE, want |-> [step |-> k, why |-> ev.obs[k].fail]]
          ELSE IF Agrees(st, op, ev.obs[k].v) THEN PReplay(ev, k + 1, Apply(st, op))
          ELSE [ok |-> FALSE, want |-> [step |-> k, why |-> "disagrees"]]
JudgePrefix(ev) == PReplay(ev, 1, [g \in 1..2 |-> Empty])
==============================================================================
