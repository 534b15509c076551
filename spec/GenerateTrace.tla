---------------------------- MODULE GenerateTrace ----------------------------
(* ev.shapes, ev.cfg: the generation; ev.subjects: the graph of the first run;   *)
(* ev.runs[k] = [fail, digest]: every run of the same configuration, with other  *)
(* numbers of threads, other forms of the same configuration and other           *)
(* processes; digest names the graph. ev.seeded: a seed was given.               *)
EXTENDS Generate, TraceChecker

Judge(ev) ==
  LET fails == { k \in 1..Len(ev.runs) : ev.runs[k].fail # "" }
      why == IF fails # {} THEN "run " \o ToString(MinOfSet(fails)) \o ": " \o ev.runs[MinOfSet(fails)].fail
             ELSE IF ev.seeded /\ \E k \in 1..Len(ev.runs) : ev.runs[k].digest # ev.runs[1].digest THEN "differs from run to run"
             ELSE GraphProblem(ev.shapes, ev.cfg, ev.subjects)
  IN [ok |-> why = "", want |-> why]
=============================================================================
