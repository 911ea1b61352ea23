SPECIFICATION Spec
CONSTANTS
 MaxParts = 2
 MaxCalls = 2
 Meaning <- Selected
 Slice <- Range
INVARIANTS Helpers
CHECK_DEADLOCK FALSE
