CONSTANTS
  DATA = {"a", "b", "eff"}
  MAXPLUG = 3
  MAXPROV = 2
  MAXDEP = 1
  REQS <- McReqs
  FREE = TRUE
SPECIFICATION WSpec
INVARIANTS InvPlan InvError InvErrorOnly InvDefined InvResult
PROPERTIES PropStable
