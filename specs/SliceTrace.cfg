SPECIFICATION Spec
INVARIANTS ViewOK PackedOK IterOK SearchOK SwapOK RawSwapOK
CHECK_DEADLOCK FALSE
