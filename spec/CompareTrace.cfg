CONSTANT Verdict <- Judge
SPECIFICATION Spec
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
