SPECIFICATION Spec
CONSTANT MaxEnts = 2
INVARIANTS ReadBack Disjoint
CHECK_DEADLOCK FALSE
