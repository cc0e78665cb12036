SPECIFICATION WSpec
CONSTANTS
  MaxCalls = 2
  Resolves = FALSE
  PrintWhat = "none"
INVARIANT Closed
INVARIANT Emit
PROPERTY Untouched
PROPERTY Ends
CHECK_DEADLOCK FALSE
