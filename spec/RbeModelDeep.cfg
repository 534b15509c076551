SPECIFICATION Spec
CONSTANTS MaxCount = 4
 Deep = TRUE
INVARIANTS DerivDecides IntervalDecides
CHECK_DEADLOCK FALSE
