SPECIFICATION Spec
CONSTANTS
  El0 = "d"
  Alloc0 = "slice"
  MaxOps = 4
  Gen = FALSE
  Texts = TRUE
INVARIANTS Conserved Answered Promised Texted
CHECK_DEADLOCK FALSE
