INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Longest = 3
  Types <- Known
  Bytes0 = {0, 1, 2, 66, 97, 127, 128, 129, 130, 160, 224, 225, 255}
INVARIANTS Within Local Prefix Skips ReadSkips
