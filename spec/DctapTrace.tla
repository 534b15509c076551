----------------------------- MODULE DctapTrace ------------------------------
(* ev.prof: the profile; ev.runs: <<[g, asked, obs, fail]>>, the verdicts       *)
(* reported with the converted schema for graphs; ev.may: the profile has an    *)
(* entry (such as an undeclared prefix) that cannot be converted, and then the   *)
(* conversion has to refuse it.                                                  *)
EXTENDS Dctap, TraceChecker

OkRun(ev, run, rd) == LET T == Meaning(ev.prof, run.g, rd) IN
  \A i \in 1..Len(run.obs) : LET o == run.obs[i] IN o[3] = (<<o[1], o[2]>> \in T)
Covered(run) == /\ run.fail = ""
                /\ Len(run.obs) = Len(run.asked)
                /\ {<<run.obs[i][1], run.obs[i][2]>> : i \in 1..Len(run.obs)} = Rng(run.asked)
Judge(ev) ==
  IF ev.bad THEN [ok |-> ev.refused, want |-> "refusal of an entry that cannot be converted"]
  ELSE IF ev.refused THEN [ok |-> FALSE, want |-> "conversion"]
  ELSE IF \E i \in 1..Len(ev.runs) : ~Covered(ev.runs[i]) THEN [ok |-> FALSE, want |-> "verdicts"]
  ELSE IF \E rd \in Readings(ev.prof) : \A i \in 1..Len(ev.runs) : OkRun(ev, ev.runs[i], rd) THEN [ok |-> TRUE, want |-> <<>>]
  ELSE LET rd == [min |-> 1, max |-> 1, lit |-> FALSE]
       IN [ok |-> FALSE, want |-> [i \in 1..Len(ev.runs) |-> {x \in Rng(ev.runs[i].asked) : x \in Meaning(ev.prof, ev.runs[i].g, rd)}]]
=============================================================================
