---------------------------- MODULE TraceChecker ----------------------------
(* Replays recorded independent observations of the implementation against the *)
(* specification. Verdict(ev) = [ok |-> BOOLEAN, want |-> what the spec says]. *)
(* Events are distributed over K chains so that TLC's workers share the work.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Verdict(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
K == 64

VARIABLES chain, pos

Init == chain \in 1..K /\ pos = chain
Consume == /\ pos <= N
           /\ LET v == Verdict(Trace[pos])
              IN IF v.ok THEN TRUE
                 ELSE PrintT("@@REJECT@@ " \o ToString(pos) \o " " \o ToJson([want |-> v.want]))
           /\ pos' = pos + K
           /\ UNCHANGED chain
Next == Consume
Spec == Init /\ [][Next]_<<chain, pos>>
AllConsumed == TLCGet("stats").distinct = N + K
=============================================================================
