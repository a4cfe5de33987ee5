SPECIFICATION Spec
CONSTANTS
  Size = 16
  H = 2
  Slots = {1, 2, 3}
  Types = {1, 2}
  MaxLen = 1
  MaxOps = 5
  Gen = TRUE
VIEW View
INVARIANTS Emit
CHECK_DEADLOCK FALSE
