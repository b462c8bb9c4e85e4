SPECIFICATION Spec
CONSTANTS
  Fam = "C09"
  MaxNodes = 4
  Rich = FALSE
CONSTRAINT Bounded
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
