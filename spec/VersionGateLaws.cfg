SPECIFICATION Spec
CONSTANT K = 2
INVARIANT Trichotomy
INVARIANT Transitive
INVARIANT RangeIsInterval
CHECK_DEADLOCK FALSE
