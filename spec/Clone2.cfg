SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2}
  Size = 3
  Keys = {"a", "b"}
  Ndirs = 3
  Actors <- cActors
  Start <- cStart
  Kills = {2}
  Old = {}
VIEW View
INVARIANTS NoBad InUse Removed Snaps Live
