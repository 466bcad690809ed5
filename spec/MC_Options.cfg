CONSTANTS
  KINDS <- KS
  DFLT <- DS
  LLHS = {"la", "lb"}
  MAXLEN = 4
  VALS = {2, 3}
SPECIFICATION MSpec
VIEW View
INVARIANTS InvUnused
PROPERTIES PropFrozen PropSet PropRead
