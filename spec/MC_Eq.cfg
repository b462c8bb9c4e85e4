SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  PairNodes = 2
INVARIANTS Reflexive Symmetric Canonical Transitive Emitted
CHECK_DEADLOCK FALSE
