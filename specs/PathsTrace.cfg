SPECIFICATION Spec
INVARIANTS FirstOK AgainOK CutOK
CHECK_DEADLOCK FALSE
