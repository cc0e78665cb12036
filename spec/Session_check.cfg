SPECIFICATION SSpec
CONSTANTS
  Threads = {1, 2, 3}
  Convs = {1, 2}
  MaxCalls = 1
  Shared = FALSE
  PrintWhat = "none"
INVARIANT Pure
INVARIANT Emit
VIEW NoHistory
CHECK_DEADLOCK FALSE
