INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- AllTypes
  Most = 8
  Confs <- Desc
INVARIANTS Described Captured Rewritten
