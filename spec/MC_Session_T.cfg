CONSTANTS
  COMPS <- C3
  DFLT <- D3
  LLHS = {"l1", "l2"}
  VALS = {1, 2}
  PSET = 0
  EMIT = FALSE
  MAXLEN = 0
  BADKINDS = {"bad"}
SPECIFICATION MSpec
VIEW View
INVARIANTS InvNames InvVals
PROPERTIES PropFrozen PropSet
