CONSTANTS
  NAMES = {"A", "B"}
  MODS = {"m1", "m2"}
  IDS = {1, 2}
  MAXLEN = 3
SPECIFICATION MSpec
VIEW View
INVARIANTS InvPlugins
PROPERTIES PropKept PropOk PropForce
