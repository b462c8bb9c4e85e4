SPECIFICATION Spec
CONSTANTS
  Lengths = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 65}
  Emit = TRUE
INVARIANTS Sub Emitted
CHECK_DEADLOCK FALSE
