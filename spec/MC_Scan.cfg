SPECIFICATION Spec
CONSTANTS
  MaxLen = 10
  MaxWidth = 4
INVARIANTS Bounded Skipped Stopped
PROPERTY Ends
CHECK_DEADLOCK FALSE
