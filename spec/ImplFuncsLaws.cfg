SPECIFICATION Spec
CONSTANTS Reach = 3
INVARIANTS Tidy Symmetric Chained Combined Inside Axial Ellipsoids Corners Maps Periodic Quarter Waves
CHECK_DEADLOCK FALSE
