SPECIFICATION LSpec
CONSTANTS
  Stream = {s1}
  Id = {i1, i2}
  MaxVer = 4
  Faults = 3
  Design = "right"

PROPERTIES Converges
CHECK_DEADLOCK FALSE
