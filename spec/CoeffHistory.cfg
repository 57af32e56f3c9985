SPECIFICATION Spec
CONSTANTS NForms = 2 MaxOps = 5 MaxHeld = 2 MaxNow = 2
INVARIANT Current
PROPERTY Kept
CHECK_DEADLOCK FALSE
