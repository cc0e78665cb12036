SPECIFICATION SSpec
CONSTANTS
  Threads = {1, 2}
  Convs = {1, 2}
  MaxCalls = 1
  Shared = TRUE
  PrintWhat = "none"
INVARIANT Pure
INVARIANT Emit
CHECK_DEADLOCK FALSE
