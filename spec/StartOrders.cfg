SPECIFICATION Spec
CONSTANTS
  Mutant = "none"
  Runs = 1
  Log = TRUE
CONSTANT Before <- OneBefore
CONSTANT Gens <- OneGen
CONSTRAINT Chain
INVARIANT Orders
CHECK_DEADLOCK FALSE
