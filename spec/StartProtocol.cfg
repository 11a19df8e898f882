SPECIFICATION Spec
CONSTANTS
  Mutant = "none"
  Runs = 3
  Log = FALSE
INVARIANTS Safe Fresh
PROPERTY Ends
CHECK_DEADLOCK FALSE
