SPECIFICATION TSpec
CONSTANTS
  Stream <- TStream
  Id = {"a", "b", "c"}
  MaxVer = 1000000
  Faults = 1000000
  Design = "right"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
