SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Design = "afterdash"
INVARIANT MeansIt
CHECK_DEADLOCK FALSE
