SPECIFICATION Spec
CONSTANTS
 MaxParts = 1
 MaxCalls = 1
 Meaning <- Everywhere
 Slice <- Range
INVARIANTS Confined
CHECK_DEADLOCK FALSE
