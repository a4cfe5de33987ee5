INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- AllTypes
  Most = 1000
  Confs <- StorageAll
INVARIANTS Back Whole
