CONSTANTS
  COMPS <- C6
  DFLT <- D6
  LLHS = {"l1", "l2", "l3"}
  VALS = {1, 2, 3, 4}
  PSET = 5
  EMIT = TRUE
  MAXLEN = 24
  BADKINDS = {"bad", "nofile"}
SPECIFICATION GSpec
