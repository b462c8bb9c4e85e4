SPECIFICATION Spec
CONSTANTS
  MaxToks = 3
  MaxActs = 3
  HistToks = 1
  Emit = TRUE
INVARIANTS HistoryFree Marks CStrings Emitted
CHECK_DEADLOCK FALSE
