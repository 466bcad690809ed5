CONSTANTS
  PTS = {}
  FILES = {}
  CTX = {}
  MAXLEN = 12
  FOCUS = "chain"
SPECIFICATION GSpec
