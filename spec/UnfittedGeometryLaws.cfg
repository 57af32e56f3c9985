SPECIFICATION Spec
CONSTANTS Shape <- S21
 Loose <- AllSides
INVARIANT Laws
CHECK_DEADLOCK FALSE
