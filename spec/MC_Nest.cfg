SPECIFICATION NestSpec
CONSTANTS
  Fam = "C09"
  MaxNodes = 4
  Rich = FALSE
  MaxLen = 2
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
