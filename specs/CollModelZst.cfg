SPECIFICATION Spec
CONSTANTS
  El0 = "z"
  Alloc0 = "slice"
  MaxOps = 5
  Gen = FALSE
  Texts = FALSE
INVARIANTS Conserved Answered Promised Texted
CHECK_DEADLOCK FALSE
