CONSTANTS
  CFG <- C3
  VALS <- V5
  LISTS = 3
  GEN = FALSE
  MAXLEN = 0
SPECIFICATION MSpec
INVARIANTS TypeOK InvSampled InvPrior
PROPERTIES PropRefused
