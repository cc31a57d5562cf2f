SPECIFICATION Spec
CONSTANTS
  Openers = {"o1", "o2", "o3", "o4"}
  OldFiles = {"f1", "f2"}
  Old = {}
INVARIANTS Complete Contents Files Honest
