SPECIFICATION Spec
CONSTANTS
  Mutant = "none"
  Threads = {1, 2, 3}
  Calls = {1}
  Active = {1, 2}
INVARIANTS Right Kept Whole Shown Tidy
