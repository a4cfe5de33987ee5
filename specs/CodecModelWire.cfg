INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- AllTypes
  Most = 4
  Confs <- Wire
INVARIANTS Back Whole Skipped
