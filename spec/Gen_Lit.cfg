CONSTANTS
  YS = {}
  SS = {}
  MAXLEN = 10
SPECIFICATION GSpec
