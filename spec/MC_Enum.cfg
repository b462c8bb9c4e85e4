SPECIFICATION Spec
CONSTANTS
  MaxEdits = 1
  EnumAsNumber = FALSE
VIEW View
INVARIANTS RoundTrip Named Emitted
CHECK_DEADLOCK FALSE
