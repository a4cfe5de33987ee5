SPECIFICATION Spec
INVARIANTS TargetsOK SourcesOK
CHECK_DEADLOCK FALSE
