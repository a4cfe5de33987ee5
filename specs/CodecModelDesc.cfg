INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- AllTypes
  Most = 4
  Confs <- Desc
INVARIANTS Back Whole Skipped
