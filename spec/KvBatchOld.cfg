SPECIFICATION Spec
CONSTANTS
  Keys <- cKeys
  Pfx <- cPfx
  Moves <- cMoves
  Limits <- cLimits
  Lens = {0, 1}
  Kinds = {"put", "del", "ren", "batch", "hold"}
  MaxB = 2
  Order = FALSE
  Old = {"rename"}
  Emit = FALSE
VIEW View
ACTION_CONSTRAINT Printed
INVARIANTS Inv Refines Ranged
PROPERTIES Steps
CHECK_DEADLOCK FALSE
