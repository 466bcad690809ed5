CONSTANTS
  M = 3
  MAXN = 3
SPECIFICATION GSpec
