INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Formats = {"storage", "wire", "desc"}
  Most = 3
INVARIANT Agree
