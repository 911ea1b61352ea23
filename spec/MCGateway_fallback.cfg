SPECIFICATION Spec
CONSTANT Design = "fallback"
INVARIANTS RightCluster
CHECK_DEADLOCK FALSE
