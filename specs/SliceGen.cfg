SPECIFICATION Spec
CONSTANTS
  Size = 16
  H = 2
  Slots = {1, 2}
  Types = {1, 2}
  MaxLen = 3
  MaxOps = 4
  Gen = TRUE
VIEW View
INVARIANTS Emit
CHECK_DEADLOCK FALSE
