SPECIFICATION Spec
CONSTANTS
  Pads = {0, 1, 2, 3, 13, 14, 15, 16, 29, 30, 31, 32}
  Values = FALSE
  Emit = TRUE
INVARIANTS Sub Trip Emitted
CHECK_DEADLOCK FALSE
