CONSTANTS
  Keys = {1, 2}
  MaxTC = 2
SPECIFICATION Spec
INVARIANTS RightGraph RightError Conforms
PROPERTY Ends
CHECK_DEADLOCK FALSE
