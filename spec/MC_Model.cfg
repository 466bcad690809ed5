CONSTANTS
  PARS = {"p1", "p2", "p3"}
  MAXCOMP = 2
  MAXLEN = 0
SPECIFICATION MSpec
INVARIANTS InvNeeds InvAlias InvEnough
