SPECIFICATION Spec
CONSTANT Verdict <- JudgeAny
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
