SPECIFICATION Spec
CONSTANTS
  MaxOdd = 2
  EnumAsNumber = FALSE
VIEW View
INVARIANTS FirstBad Ignored Emitted
CHECK_DEADLOCK FALSE
