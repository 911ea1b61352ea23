SPECIFICATION Spec
CONSTANTS
  Deps = {"w", "w-w"}
  Hashes = {"x", "w"}
  Split <- ByLastDash
INVARIANTS Refines Isolated
CHECK_DEADLOCK FALSE
