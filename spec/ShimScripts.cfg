SPECIFICATION ScriptSpec
CONSTANTS
  Hosts = {h1, h2}
  Threads = {t1, t2}
  MaxEdits = 2
  MaxKills = 2
  MaxFails = 2
  MaxCalls = 7
  Publish = "atomic"
  Stamp = "sampled"
  Redo = "may"
  Len0 = 9
  NoActor = NoActor
CHECK_DEADLOCK FALSE
