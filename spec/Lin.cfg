SPECIFICATION Spec
CONSTANT Str <- TraceStr
INVARIANT Done
CHECK_DEADLOCK FALSE
