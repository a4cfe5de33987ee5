SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  Gen = FALSE
  Refuses = TRUE
VIEW View
INVARIANTS KeptIsPrefix MarksBringBack ErrorsInOrder Emit
CHECK_DEADLOCK FALSE
