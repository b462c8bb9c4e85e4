SPECIFICATION PairSpec
CONSTANTS
  Fam = "C12"
  MaxNodes = 4
  Rich = FALSE
  MaxLen = 5
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
