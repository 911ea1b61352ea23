SPECIFICATION Spec
CONSTANTS
 MaxParts = 1
 MaxCalls = 1
 Meaning <- AnyNegation
 Slice <- Range
INVARIANTS Conjunction Negation FuzzyIsAny Local
CHECK_DEADLOCK FALSE
