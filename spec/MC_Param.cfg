CONSTANTS
  CFG <- C3
  VALS <- V4
  LISTS = 2
  GEN = FALSE
  MAXLEN = 0
SPECIFICATION MSpec
INVARIANTS TypeOK InvSampled InvPrior
PROPERTIES PropRefused
