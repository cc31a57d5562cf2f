SPECIFICATION Spec
CONSTANTS
  Files = {1, 2, 3}
  Handles = {1}
  Size = 12
  Block = 2
  Keys = {"a"}
  Lens = {2}
  Actors <- cActors
  Start <- cStart
  MaxV = 2
  Old = {}
  Emit = FALSE
VIEW View
ACTION_CONSTRAINT Printed
INVARIANTS Live Staged Snaps Apart NoBad OneWriter Given
