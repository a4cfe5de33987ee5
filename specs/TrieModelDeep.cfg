SPECIFICATION Spec
CONSTANTS
  Letters = {97, 98}
  MaxKey = 3
  MaxIns = 4
  Gen = FALSE
INVARIANTS TreeOK LookupOK PrefixOK
CHECK_DEADLOCK FALSE
