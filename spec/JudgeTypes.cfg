SPECIFICATION Spec
CONSTANTS
  EnumAsNumber = FALSE
INVARIANT Accepted
CHECK_DEADLOCK FALSE
