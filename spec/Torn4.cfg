SPECIFICATION Spec
CONSTANTS
  Width = 4
  Chunk = 4
  At = 20
  Load = 8
  Writes = 3
INVARIANT Whole
CHECK_DEADLOCK FALSE
