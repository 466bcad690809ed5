CONSTANTS
  VALS = {0, 5, 7}
  MAXLEN = 1
  DIMS <- Ds
  QS <- Full
SPECIFICATION MSpec
INVARIANTS InvLerp InvNear InvIdw InvPoint
