SPECIFICATION Spec
CONSTANTS
  B = 4
  W = 8
  H2 = {0, 1}
  MaxKeys = 3
INVARIANTS FindOK AbsentOK NoLoss OneSlotEach
CHECK_DEADLOCK FALSE
