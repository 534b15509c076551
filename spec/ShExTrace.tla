------------------------------ MODULE ShExTrace ------------------------------
(* Judges recorded ShEx validations. *)
EXTENDS ShEx, TraceChecker

(* ev.asked: sequence of <<node, label>>; ev.obs: sequence of <<node, label, conforms>>; *)
(* ev.std: judge inverse constraints by the standard only                              *)
RefIn(sch, n, i, T) == \E j \in Descendants(sch, i) : ~sch.shapes[j].abs /\ <<n, j>> \in T
Agrees(ev, T) == \A i \in 1..Len(ev.obs) : LET o == ev.obs[i] IN o[3] = RefIn(ev.sch, o[1], o[2], T)
TypingVerdict(ev) ==
  LET asked == Rng(ev.asked)
      covered == /\ ev.fail = ""
                 /\ Len(ev.obs) = Cardinality(asked)
                 /\ {<<ev.obs[i][1], ev.obs[i][2]>> : i \in 1..Len(ev.obs)} = asked
      L == Typing(ev.sch, ev.g, FALSE)
  IN IF ev.refused THEN [ok |-> MayRefuse(ev.sch), want |-> "accepted schema"]
     ELSE IF MustRefuse(ev.sch) THEN [ok |-> FALSE, want |-> "refused schema"]
     ELSE IF NegCycleIn(DepFun(ev.sch)) THEN [ok |-> TRUE, want |-> {}]
     ELSE IF covered /\ Agrees(ev, L) THEN [ok |-> TRUE, want |-> {}]
     ELSE IF covered /\ ~ev.std /\ HasInverse(ev.sch) /\ Agrees(ev, Typing(ev.sch, ev.g, TRUE)) THEN [ok |-> TRUE, want |-> {}]
     ELSE IF covered /\ HasExtends(ev.sch) /\ \E w \in {"all", "mixed"} : Agrees(ev, TypingUnder(ev.sch, ev.g, [strict |-> FALSE, whole |-> w])) THEN [ok |-> TRUE, want |-> {}]
     ELSE [ok |-> FALSE, want |-> {x \in asked : RefIn(ev.sch, x[1], x[2], L)}]

(* single value expression against nodes: ev.nc, ev.nodes, ev.obs (booleans) *)
NCVerdict(ev) ==
  LET want == [i \in 1..Len(ev.nodes) |-> NCSat(ev.nodes[i], ev.nc)]
  IN [ok |-> ev.fail = "" /\ Len(ev.obs) = Len(ev.nodes) /\ \A i \in 1..Len(ev.nodes) : ev.obs[i] = want[i], want |-> want]

(* ev.refused: the tool refused the schema because of a negation cycle *)
NegVerdict(ev) == LET must == MustRefuse(ev.sch) may == MayRefuse(ev.sch)
                  IN [ok |-> ev.fail = "" /\ (must => ev.refused) /\ (ev.refused => may), want |-> <<must, may>>]

JudgeShEx(ev) == CASE ev.op = "typing" -> TypingVerdict(ev)
                   [] ev.op = "nc" -> NCVerdict(ev)
                   [] ev.op = "neg" -> NegVerdict(ev)
==============================================================================
