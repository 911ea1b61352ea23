SPECIFICATION Spec
CONSTANT Design = "lateauth"
INVARIANTS Guarded
CHECK_DEADLOCK FALSE
