SPECIFICATION Spec
CONSTANTS
  U = "reg"
  Mutant = "none"
  Log = FALSE
CONSTANT Str <- Names
VIEW Live
INVARIANTS FileShows FileThere OneName DomainsFit Covered
PROPERTIES Refused Frozen Forward OnlyNamed Apart Still Started Counted
CHECK_DEADLOCK FALSE
