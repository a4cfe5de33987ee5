INIT Init
NEXT Next
INVARIANTS NoPanic Written Read Hints Cuts Doors
CHECK_DEADLOCK FALSE
