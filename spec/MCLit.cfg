SPECIFICATION Spec
INVARIANTS Antisymmetric Reflexive Transitive KindsApart AllowedIsSound
CHECK_DEADLOCK FALSE
