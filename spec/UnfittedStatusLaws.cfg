SPECIFICATION Spec
INVARIANT ExteriorPartition
INVARIANT InteriorPartition
INVARIANT AllIsUnion
INVARIANT Complement
INVARIANT Answers
INVARIANT FullIsNotBoundary
CHECK_DEADLOCK FALSE
