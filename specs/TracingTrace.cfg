SPECIFICATION Spec
INVARIANTS HistoryOK
CHECK_DEADLOCK FALSE
