CONSTANT Verdict <- JudgePrefix
SPECIFICATION Spec
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
