SPECIFICATION Spec
CONSTANTS
 MaxParts = 2
 MaxCalls = 1
 Meaning <- Selected
 Slice <- Range
INVARIANTS Conjunction Negation FuzzyIsAny Local
CHECK_DEADLOCK FALSE
