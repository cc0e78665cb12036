SPECIFICATION WSpec
CONSTANTS
  MaxCalls = 2
  Resolves = FALSE
  PrintWhat = "log"
INVARIANT Closed
INVARIANT Emit
PROPERTY Untouched
CHECK_DEADLOCK FALSE
