SPECIFICATION Spec
INVARIANTS Pull Nanson InPlane Metric
CHECK_DEADLOCK FALSE
