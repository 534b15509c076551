SPECIFICATION Spec
CONSTANT Verdict <- JudgeShacl
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
