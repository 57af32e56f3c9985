SPECIFICATION Spec
CONSTANT M = 5
INVARIANTS Tile Edges
CHECK_DEADLOCK FALSE
