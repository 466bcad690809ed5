CONSTANTS
  VALS = {0, 5}
  MAXLEN = 1
  DIMS <- Ds
  QS <- Quick
SPECIFICATION MSpec
INVARIANTS InvLerp InvNear InvIdw InvPoint
