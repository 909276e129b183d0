SPECIFICATION Spec
INVARIANTS Structural Lawful
CHECK_DEADLOCK FALSE
