SPECIFICATION Spec
CONSTANTS
  Keys <- cKeys
  Pfx <- cPfx
  Moves <- cMoves
  Limits <- cLimits
  Lens = {0, 1, 2}
  Kinds = {"put", "del", "get", "ls", "ren", "limits", "batch"}
  MaxB = 2
  Order = TRUE
  Old = {"limits"}
  Emit = FALSE
VIEW View
ACTION_CONSTRAINT Printed
INVARIANTS Inv Refines Ranged
PROPERTIES Steps
CHECK_DEADLOCK FALSE
