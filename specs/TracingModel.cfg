SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Gen = FALSE
  Refuses = TRUE
VIEW View
INVARIANTS KeptIsPrefix MarksBringBack ErrorsInOrder Emit
CHECK_DEADLOCK FALSE
