SPECIFICATION Spec
CONSTANTS
  MaxEdits = 2
  MaxChanges = 1
  EnumAsNumber = FALSE
VIEW View
INVARIANTS RoundTrip Stable Emitted
CHECK_DEADLOCK FALSE
