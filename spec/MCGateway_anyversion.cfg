SPECIFICATION Spec
CONSTANT Design = "anyversion"
INVARIANTS AsPromised
CHECK_DEADLOCK FALSE
