SPECIFICATION Spec
CONSTANT Verdict <- JudgeShEx
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
