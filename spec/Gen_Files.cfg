CONSTANTS
  NAMES = {}
  OPTS = {}
  MAXLEN = 30
SPECIFICATION GSpec
