SPECIFICATION Spec
CONSTANTS
  N = 3
  Lambda = 1
  F1 = {0, 1, 2}
INVARIANTS LookupOK PermOK
CHECK_DEADLOCK FALSE
