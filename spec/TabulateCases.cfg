SPECIFICATION Spec
CONSTANTS
  MaxNd = 3
  MaxPts = 4
INVARIANT Sane
CHECK_DEADLOCK FALSE
