SPECIFICATION Spec
CONSTANT Sloppy = TRUE
INVARIANT Exact
CHECK_DEADLOCK FALSE
