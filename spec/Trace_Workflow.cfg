CONSTANTS
  DATA = {}
  MAXPLUG = 0
  MAXPROV = 0
  MAXDEP = 0
  REQS = {}
  FREE = TRUE
  TInitState <- WTInit
  TJudge <- WTJudge
  TApply <- WTApply
SPECIFICATION TSpec
