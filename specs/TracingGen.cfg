SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Gen = TRUE
  Refuses = FALSE
VIEW View
INVARIANTS KeptIsPrefix MarksBringBack ErrorsInOrder Emit
CHECK_DEADLOCK FALSE
