CONSTANTS
  KINDS <- GK
  DFLT <- DS
  LLHS <- GLLH
  MAXLEN = 14
  VALS = {2}
SPECIFICATION GSpec
