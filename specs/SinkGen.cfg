SPECIFICATION Spec
CONSTANTS
  Caps = {0, 1, 2, 3, 5, 8}
  Chunks = {0, 1, 2, 3, 4}
  MaxOps = 4
  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
