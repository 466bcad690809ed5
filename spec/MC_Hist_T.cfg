CONSTANTS
  M = 6
  MAXN = 13
SPECIFICATION ESpec
INVARIANTS InvPartition InvSearch InvMass InvEqui InvEqui2
