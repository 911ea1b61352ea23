SPECIFICATION Spec
CONSTANT Design = "keepmark"
INVARIANTS Intact
CHECK_DEADLOCK FALSE
