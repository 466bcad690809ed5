CONSTANTS
  PTS = {}
  FILES = {}
  CTX = {}
  MAXLEN = 12
  FOCUS = "reload"
SPECIFICATION GSpec
