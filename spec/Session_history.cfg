SPECIFICATION SSpec
CONSTANTS
  Threads = {1}
  Convs = {1, 2}
  MaxCalls = 3
  Shared = FALSE
  PrintWhat = "log"
INVARIANT Pure
INVARIANT Emit
CHECK_DEADLOCK FALSE
