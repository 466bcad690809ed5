CONSTANTS
  PTS = {1, 2}
  FILES = {"fa", "fb"}
  CTX = {1, 2, 3}
  MAXLEN = 4
  FOCUS = "chain"
SPECIFICATION MSpec
VIEW View
INVARIANTS InvThin
PROPERTIES PropGrow PropOthers PropReload PropContinue
