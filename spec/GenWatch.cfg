SPECIFICATION GenSpec
CONSTANTS
  Stream <- GStream
  Id = {"a", "b", "c"}
  MaxVer = 1000000
  Faults = 1000000
  Design = "right"
INVARIANT EmitH
CHECK_DEADLOCK FALSE
