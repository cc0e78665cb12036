SPECIFICATION SSpec
CONSTANTS
  Threads = {1, 2}
  Convs = {1, 2}
  MaxCalls = 2
  Shared = FALSE
  PrintWhat = "none"
INVARIANT Pure
INVARIANT Emit
VIEW NoHistory
PROPERTY Returns
CHECK_DEADLOCK FALSE
