SPECIFICATION Spec
CONSTANTS
  Input = 3
  MaxOps = 4
  MaxDepth = 2
  Takes = {0, 1, 2, 4}
  Limits = {0, 1, 3, 5}
  Gen = TRUE
VIEW View
INVARIANTS Emit
CHECK_DEADLOCK FALSE
