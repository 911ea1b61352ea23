SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Design = "right"
INVARIANT MeansIt
CHECK_DEADLOCK FALSE
