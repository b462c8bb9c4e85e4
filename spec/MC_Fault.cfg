SPECIFICATION FaultSpec
CONSTANTS
  Fam = "C27"
  MaxNodes = 3
  Rich = FALSE
CONSTRAINT Bounded
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
