SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Design = "novalues"
INVARIANT MeansIt
CHECK_DEADLOCK FALSE
