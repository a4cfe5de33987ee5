INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- AllTypes
  Most = 1000
  Confs <- WireAll
INVARIANTS Back Whole Skipped
