SPECIFICATION Spec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
  Cells = {0, 1}
  Faces = {0, 1}
  Dtypes = {"int32"}
  MaxObjs = 3
  MaxLen = 2
  MaxOps = 4
