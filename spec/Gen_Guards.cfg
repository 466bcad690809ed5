CONSTANTS
  NAMES = {}
  MODS = {}
  IDS = {}
  MAXLEN = 30
SPECIFICATION GSpec
