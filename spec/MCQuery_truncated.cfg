SPECIFICATION Spec
CONSTANTS
 MaxParts = 0
 MaxCalls = 0
 Meaning <- Selected
 Slice <- Truncated
INVARIANTS PagesHold
CHECK_DEADLOCK FALSE
