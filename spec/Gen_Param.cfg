CONSTANTS
  CFG <- CNone
  VALS = {}
  LISTS = 0
  GEN = TRUE
  MAXLEN = 20
SPECIFICATION GSpec
