SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  MaxChanges = 2
  CLocales = {"C", "de_DE.UTF-8", "ps_AF.UTF-8"}
INVARIANTS Independent Sensible Emitted
CHECK_DEADLOCK FALSE
