SPECIFICATION Spec
CONSTANTS
  El0 = "d"
  Alloc0 = "sys"
  MaxOps = 4
  Gen = TRUE
  Texts = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
