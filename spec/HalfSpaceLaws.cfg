SPECIFICATION Spec
CONSTANTS Coeffs <- Steps
 Lengths = {1, 2}
 Dims = {1, 2, 3}
INVARIANT Laws
CHECK_DEADLOCK FALSE
