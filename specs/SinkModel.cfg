SPECIFICATION Spec
CONSTANTS
  Caps = {0, 1, 2, 3, 5, 8}
  Chunks = {0, 1, 2, 3, 5, 9}
  MaxOps = 5
  Gen = FALSE
INVARIANTS Exact Bounded Honest
CHECK_DEADLOCK FALSE
