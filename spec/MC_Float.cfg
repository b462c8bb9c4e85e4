SPECIFICATION Spec
CONSTANTS
  Step = 6
INVARIANTS Finite Emitted
CHECK_DEADLOCK FALSE
