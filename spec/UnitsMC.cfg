SPECIFICATION Spec
INVARIANTS RoundTrip Fields Commute
CHECK_DEADLOCK FALSE
