CONSTANTS
  Labels = {1, 2, 3, 4, 5}
  MaxResults = 4
SPECIFICATION Spec
INVARIANTS NotMixed Written
PROPERTY Ends
CHECK_DEADLOCK FALSE
