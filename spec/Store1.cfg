SPECIFICATION Spec
CONSTANTS
  Files = {1, 2}
  Handles = {1}
  Size = 12
  Block = 2
  Keys = {"a", "b"}
  Lens = {1, 4}
  Actors <- cActors
  Start <- cStart
  MaxV = 2
  Old = {}
  Emit = FALSE
  dels = 1
VIEW View
ACTION_CONSTRAINT Printed
INVARIANTS Live Staged Snaps Apart NoBad OneWriter Given
