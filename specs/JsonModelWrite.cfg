INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Types <- AllTypes
  Most = 4
  Modes = {"Text"}
  Styles = {"c", "s"}
INVARIANTS Parsed Same Meaning Escaped Cut
