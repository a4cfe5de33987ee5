SPECIFICATION Spec
CONSTANTS
  Input = 5
  MaxOps = 9
  MaxDepth = 3
  Takes = {0, 1, 2, 3, 6}
  Limits = {0, 1, 2, 4, 9}
  Gen = FALSE
VIEW View
INVARIANTS Agree Counters Inside Eof
CHECK_DEADLOCK FALSE
