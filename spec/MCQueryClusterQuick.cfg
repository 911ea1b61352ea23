SPECIFICATION Spec
CONSTANTS
 MaxParts = 1
 MaxCalls = 2
 Meaning <- Selected
 Slice <- Range
INVARIANTS Confined Local
CHECK_DEADLOCK FALSE
