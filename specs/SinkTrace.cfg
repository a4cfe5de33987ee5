SPECIFICATION Spec
INVARIANTS SinkOK FixedOK
CHECK_DEADLOCK FALSE
