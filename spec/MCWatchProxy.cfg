SPECIFICATION MCSpec
CONSTANTS
  Stream = {s1, s2}
  Text = {"a"}
  Limit = 2
  ReqLimit = 1
  Steps = 7
  Design = "right"
INVARIANTS Faithful Prompt Released LongLived ClosureOK
PROPERTIES Independent Settles
CHECK_DEADLOCK FALSE
