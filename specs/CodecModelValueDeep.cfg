INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- AllTypes
  Most = 1000
  Confs <- Desc
INVARIANTS Described Captured Rewritten
