SPECIFICATION Spec
CONSTANTS
  Hosts = {h1, h2}
  Threads = {t1, t2}
  MaxEdits = 1
  MaxKills = 1
  MaxFails = 1
  MaxCalls = 4
  Publish = "atomic"
  Stamp = "finish"
  Redo = "never"
  NoActor = NoActor
INVARIANTS TypeOK Complete NotStale OneBuilder BuiltOnce LockHeld
PROPERTIES StaysComplete
CHECK_DEADLOCK FALSE
