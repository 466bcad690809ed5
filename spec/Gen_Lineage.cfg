CONSTANTS
  MAXLEN = 12
  VALS = {}
SPECIFICATION GSpec
