SPECIFICATION Spec
CONSTANTS
  B = 8
  W = 2
  H2 = {0, 1}
  MaxKeys = 4
INVARIANTS FindOK AbsentOK NoLoss OneSlotEach
CHECK_DEADLOCK FALSE
