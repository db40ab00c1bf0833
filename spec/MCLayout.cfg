SPECIFICATION Spec
INVARIANT Movable
CHECK_DEADLOCK FALSE
