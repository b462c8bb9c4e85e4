SPECIFICATION Spec
CONSTANTS
  MaxNodes = 3
  PairBytes = {0, 31, 32, 34, 47, 92, 97, 110, 117, 127, 128, 255}
  Emit = TRUE
INVARIANTS WellFormedInv RoundTrip RoundTripC PrettyTrip WhitespaceOnly NoWhitespace Emitted
CHECK_DEADLOCK FALSE
