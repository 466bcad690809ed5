CONSTANTS
  NAMES = {"a.json", "_elife.json"}
  OPTS = {"fa"}
  MAXLEN = 5
SPECIFICATION MSpec
VIEW View
INVARIANTS InvWhere
PROPERTIES PropKept
