CONSTANTS
  KINDS <- KT
  DFLT <- DT
  LLHS = {"la", "lb"}
  MAXLEN = 5
  VALS = {2, 3}
SPECIFICATION MSpec
VIEW View
INVARIANTS InvUnused
PROPERTIES PropFrozen PropSet PropRead
