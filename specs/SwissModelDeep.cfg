SPECIFICATION Spec
CONSTANTS
  B = 8
  W = 4
  H2 = {0}
  MaxKeys = 7
INVARIANTS FindOK AbsentOK NoLoss OneSlotEach
CHECK_DEADLOCK FALSE
