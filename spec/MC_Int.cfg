SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
  EnumAsNumber = FALSE
VIEW View
INVARIANTS Grammar Exact Emitted
CHECK_DEADLOCK FALSE
