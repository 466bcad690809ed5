CONSTANTS
  VALS = {}
  MAXLEN = 20
  DIMS = {}
  QS = {}
SPECIFICATION LSpec
