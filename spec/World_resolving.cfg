SPECIFICATION WSpec
CONSTANTS
  MaxCalls = 1
  Resolves = TRUE
  PrintWhat = "none"
INVARIANT Closed
INVARIANT Emit
CHECK_DEADLOCK FALSE
