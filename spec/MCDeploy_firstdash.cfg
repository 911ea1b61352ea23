SPECIFICATION Spec
CONSTANTS
  Deps = {"w", "w-w"}
  Hashes = {"x", "w"}
  Split <- ByFirstDash
INVARIANTS Refines Isolated
CHECK_DEADLOCK FALSE
