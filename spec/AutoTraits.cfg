SPECIFICATION Spec
INVARIANT Examined
CHECK_DEADLOCK FALSE
