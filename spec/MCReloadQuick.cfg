SPECIFICATION RSpec
CONSTANTS
  Readd = TRUE
  Compare = TRUE
  WatchFirst = TRUE
  Adopt = "both"
  MaxOps = 3
  MaxContent = 2
INVARIANTS TypeOK NeverBad
PROPERTIES Whole Converges
CHECK_DEADLOCK FALSE
