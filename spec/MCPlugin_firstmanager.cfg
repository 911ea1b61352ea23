SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Design = "firstmanager"
INVARIANT MeansIt
CHECK_DEADLOCK FALSE
