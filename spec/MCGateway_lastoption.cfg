SPECIFICATION Spec
CONSTANT Design = "lastoption"
INVARIANTS RightCluster
CHECK_DEADLOCK FALSE
