SPECIFICATION Spec
INVARIANTS SizedOK UnalignedOK FromOK SliceOK StrOK SwapOK
CHECK_DEADLOCK FALSE
