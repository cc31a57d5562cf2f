SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2}
  Size = 3
  Keys = {"a", "b"}
  Ndirs = 4
  Actors <- cActors
  Start <- cStart
  Kills = {}
  Old = {}
VIEW View
INVARIANTS NoBad InUse Removed Snaps Live
