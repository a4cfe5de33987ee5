SPECIFICATION Spec
CONSTANTS
  Letters = {97, 98}
  MaxKey = 3
  MaxIns = 4
  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
