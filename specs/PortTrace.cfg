SPECIFICATION Spec
INVARIANTS NumOK RefOK PackedOK EndianOK CoerceOK FromSized
CHECK_DEADLOCK FALSE
