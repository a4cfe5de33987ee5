INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- AllTypes
  Most = 1000
  Modes = {"Text", "Binary"}
  Styles = {"w", "u"}
INVARIANTS Parsed Same Meaning Escaped Cut
