SPECIFICATION Spec
CONSTANTS
  Keys <- cKeys
  Pfx <- cPfx
  Moves <- cMoves
  Limits <- cLimits
  Lens = {1}
  Kinds = {"put", "del", "ls", "delp"}
  MaxB = 0
  Order = FALSE
  Old = {"range"}
  Emit = FALSE
VIEW View
ACTION_CONSTRAINT Printed
INVARIANTS Inv Refines Ranged
PROPERTIES Steps
CHECK_DEADLOCK FALSE
