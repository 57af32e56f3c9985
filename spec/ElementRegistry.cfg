SPECIFICATION Spec
CONSTANTS
  Types = {"f64", "f32"}
  Keys = {"a", "b", "c", "x"}
  GoodKeys = {"a", "b", "c"}
  MaxOps = 7
INVARIANTS NoDuplicates OnlyGood AnswerDenotes
PROPERTIES Stable Separate
CHECK_DEADLOCK FALSE
