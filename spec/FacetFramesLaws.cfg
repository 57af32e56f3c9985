SPECIFICATION Spec
INVARIANTS SamePlace Inverse Across Numbers
CHECK_DEADLOCK FALSE
