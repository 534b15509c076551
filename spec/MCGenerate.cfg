CONSTANTS
  Workers = {w1, w2}
  MaxCount = 4
  MaxCard = 2
  Seeds = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS OneGraph Right Distinct
PROPERTY Ends
CHECK_DEADLOCK FALSE
