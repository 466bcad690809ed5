CONSTANTS
  PTS = {}
  FILES = {}
  CTX = {}
  MAXLEN = 12
  FOCUS = "post"
SPECIFICATION GSpec
