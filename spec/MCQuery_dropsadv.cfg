SPECIFICATION Spec
CONSTANTS
 MaxParts = 2
 MaxCalls = 1
 Meaning <- DropsA
 Slice <- Range
INVARIANTS Helpers
CHECK_DEADLOCK FALSE
