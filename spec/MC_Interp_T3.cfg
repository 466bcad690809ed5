CONSTANTS
  VALS = {0, 5}
  MAXLEN = 1
  DIMS <- DsT
  QS <- Full
SPECIFICATION MSpec
INVARIANTS InvLerp InvNear InvIdw InvPoint
