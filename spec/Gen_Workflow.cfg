CONSTANTS
  DATA = {"d1"}
  MAXPLUG = 7
  MAXPROV = 3
  MAXDEP = 3
  REQS = {}
  FREE = TRUE
SPECIFICATION GSpec
