SPECIFICATION Spec
INVARIANTS Inv MergeInOrder
PROPERTY Frame
CHECK_DEADLOCK FALSE
