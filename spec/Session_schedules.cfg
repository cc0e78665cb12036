SPECIFICATION SSpec
CONSTANTS
  Threads = {1, 2}
  Convs = {1, 2}
  MaxCalls = 1
  Shared = FALSE
  PrintWhat = "steps"
INVARIANT Pure
INVARIANT Emit
CHECK_DEADLOCK FALSE
