SPECIFICATION Spec
INVARIANTS Partition Swap Unique
CHECK_DEADLOCK FALSE
