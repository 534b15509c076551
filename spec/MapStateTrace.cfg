SPECIFICATION Spec
CONSTANT Verdict <- JudgeMap
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
