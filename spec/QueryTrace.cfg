SPECIFICATION Spec
CONSTANT Verdict <- JudgeQuery
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
