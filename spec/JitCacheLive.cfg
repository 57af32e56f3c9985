SPECIFICATION Spec
CONSTANTS Procs = {p1, p2} Sigs = {s1, s2} MaxTicks = 2 MaxFails = 1 MaxKills = 1
INVARIANTS Complete Loaded OneBuilder Released
PROPERTY Ends
CHECK_DEADLOCK FALSE
