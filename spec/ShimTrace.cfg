SPECIFICATION TraceSpec
CONSTANTS
  Hosts = {"h1", "h2"}
  Threads = {"t1", "t2"}
  MaxEdits = 1000
  MaxKills = 1000
  MaxFails = 1000
  MaxCalls = 1000
  Publish = "atomic"
  Stamp = "sampled"
  Redo = "may"
  NoActor = NoActor
CONSTRAINT Progress
INVARIANTS NotStale OneBuilder BuiltOnce
POSTCONDITION Report
CHECK_DEADLOCK FALSE
