CONSTANTS
  MaxNodes = 3
  MaxCalls = 1
  N = 2
  Emit = "alone"
SPECIFICATION Spec
INVARIANTS RaceFree Undisturbed Constant Alone
CHECK_DEADLOCK FALSE
