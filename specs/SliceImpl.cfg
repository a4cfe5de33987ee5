SPECIFICATION Spec
CONSTANTS
  Size = 16
  H = 2
  Slots = {1, 2, 3}
  Types = {1, 2}
  MaxLen = 3
  MaxOps = 7
  Gen = FALSE
VIEW View
INVARIANTS Inside Aligned Room Disjoint Contents Linked Accounted Reclaimed
CHECK_DEADLOCK FALSE
