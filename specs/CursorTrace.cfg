SPECIFICATION Spec
INVARIANTS Behaves
CHECK_DEADLOCK FALSE
