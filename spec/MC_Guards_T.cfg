CONSTANTS
  NAMES = {"A", "B", "C"}
  MODS = {"m1", "m2"}
  IDS = {1, 2, 3}
  MAXLEN = 4
SPECIFICATION MSpec
VIEW View
INVARIANTS InvPlugins
PROPERTIES PropKept PropOk PropForce
