INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Exactly Hair Middle
