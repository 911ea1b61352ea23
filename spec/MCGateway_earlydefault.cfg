SPECIFICATION Spec
CONSTANT Design = "earlydefault"
INVARIANTS RightCluster
CHECK_DEADLOCK FALSE
