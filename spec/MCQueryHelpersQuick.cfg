SPECIFICATION Spec
CONSTANTS
 MaxParts = 1
 MaxCalls = 1
 Meaning <- Selected
 Slice <- Range
INVARIANTS Helpers
CHECK_DEADLOCK FALSE
