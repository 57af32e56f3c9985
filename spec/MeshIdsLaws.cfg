SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS NCells = 4
 NNodes = 4
 Procs = {p1, p2}
