SPECIFICATION Spec
CONSTANTS
  Mutant = "none"
  Threads = {1, 2}
  Calls = {1, 2}
  Active = {1, 2}
INVARIANTS Right Kept Whole Shown Tidy
