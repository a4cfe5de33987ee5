SPECIFICATION Spec
INVARIANTS OpsOK DecOK
CHECK_DEADLOCK FALSE
