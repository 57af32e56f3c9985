SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Types = {"f64", "f32"}
  Top = 7
INVARIANT Separate
CHECK_DEADLOCK FALSE
