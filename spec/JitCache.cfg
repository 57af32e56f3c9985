SPECIFICATION Spec
CONSTANTS Procs = {p1, p2, p3} Sigs = {s1, s2} MaxTicks = 1 MaxFails = 2 MaxKills = 1
INVARIANTS Complete Loaded OneBuilder Released
PROPERTY Once
CHECK_DEADLOCK FALSE
