SPECIFICATION Spec
CONSTANTS
  Hosts = {h1, h2}
  Threads = {t1, t2}
  MaxEdits = 1
  MaxKills = 1
  MaxFails = 1
  MaxCalls = 3
  Publish = "atomic"
  Stamp = "finish"
  Redo = "changed"
  NoActor = NoActor
INVARIANTS TypeOK Complete NotStale OneBuilder BuiltOnce LockHeld
PROPERTIES StaysComplete Ends
CHECK_DEADLOCK FALSE
