CONSTANTS
  YS <- MCYsT
  SS = {1, 2, 3, 4, 5}
  MAXLEN = 1
SPECIFICATION MSpec
INVARIANTS InvSame InvShape
