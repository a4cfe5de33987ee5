SPECIFICATION Spec
INVARIANTS Built GetOK PrefixOK IterOK
CHECK_DEADLOCK FALSE
