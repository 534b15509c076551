SPECIFICATION Spec
CONSTANTS MaxCount = 4
 Deep = FALSE
INVARIANTS DerivDecides IntervalDecides
CHECK_DEADLOCK FALSE
