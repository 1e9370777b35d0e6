SPECIFICATION Spec
INVARIANT Invariant
VIEW Shape
CHECK_DEADLOCK FALSE
