CONSTANTS
  M = 4
  MAXN = 9
SPECIFICATION ESpec
INVARIANTS InvPartition InvSearch InvMass InvEqui InvEqui2
