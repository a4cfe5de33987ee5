SPECIFICATION Spec
CONSTANTS
  El0 = "w"
  Alloc0 = "sys"
  MaxOps = 4
  Gen = TRUE
  Texts = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
