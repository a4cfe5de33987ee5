SPECIFICATION Spec
CONSTANTS
  N = 4
  Lambda = 2
  F1 = {0, 1}
INVARIANTS LookupOK PermOK
CHECK_DEADLOCK FALSE
