CONSTANTS
  N = 2
  MaxArcs = 3
SPECIFICATION Spec
INVARIANTS Right AskSame Incomplete Limits Graph
PROPERTY Ends
CHECK_DEADLOCK FALSE
