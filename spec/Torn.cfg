SPECIFICATION Spec
CONSTANTS
  Width = 8
  Chunk = 8
  At = 16
  Load = 8
  Writes = 3
INVARIANT Whole
CHECK_DEADLOCK FALSE
