SPECIFICATION Spec
INVARIANTS Built LookupOK LenOK
CHECK_DEADLOCK FALSE
