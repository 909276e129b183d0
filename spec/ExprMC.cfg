SPECIFICATION Spec
INVARIANT Meaningful
CHECK_DEADLOCK FALSE
