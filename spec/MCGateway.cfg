SPECIFICATION Spec
CONSTANT Design = "right"
INVARIANTS AsPromised Intact Guarded RightCluster
CHECK_DEADLOCK FALSE
