CONSTANTS
  MAXLEN = 3
  VALS = {0, 1}
SPECIFICATION MSpec
INVARIANTS InvBelow
PROPERTIES PropVisible PropOnly
