SPECIFICATION WSpec
CONSTANTS
  Stream = {s1}
  Id = {i1, i2}
  MaxVer = 3
  Faults = 2
  Design = "noclear"
INVARIANTS Survives Exact Current
PROPERTIES Isolated Final
CHECK_DEADLOCK FALSE
