SPECIFICATION Spec
CONSTANTS
 Depth = 5
 Design = "right"
INVARIANT MeansIt
CHECK_DEADLOCK FALSE
