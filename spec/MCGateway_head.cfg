SPECIFICATION Spec
CONSTANT Design = "head"
INVARIANTS AsPromised
CHECK_DEADLOCK FALSE
