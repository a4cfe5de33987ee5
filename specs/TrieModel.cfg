SPECIFICATION Spec
CONSTANTS
  Letters = {97, 98}
  MaxKey = 3
  MaxIns = 3
  Gen = FALSE
INVARIANTS TreeOK LookupOK PrefixOK
CHECK_DEADLOCK FALSE
