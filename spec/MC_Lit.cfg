CONSTANTS
  YS <- MCYs
  SS = {1, 2, 3}
  MAXLEN = 1
SPECIFICATION MSpec
INVARIANTS InvSame InvShape
