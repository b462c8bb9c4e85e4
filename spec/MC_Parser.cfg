SPECIFICATION Spec
CONSTANTS
  MaxDepth = 1
  JC = FALSE
  Emit = TRUE
VIEW View
INVARIANT TypeOK NoDeadEnd
CHECK_DEADLOCK FALSE
