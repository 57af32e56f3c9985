SPECIFICATION Spec
CONSTANTS N = 3
          D = 2
INVARIANTS Partition VisitsAll Order
CHECK_DEADLOCK FALSE
