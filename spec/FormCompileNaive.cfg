SPECIFICATION Spec
INVARIANT NaiveOk
CHECK_DEADLOCK FALSE
