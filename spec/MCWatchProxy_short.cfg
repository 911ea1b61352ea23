SPECIFICATION MCSpec
CONSTANTS
  Stream = {s1, s2}
  Text = {"a"}
  Limit = 2
  ReqLimit = 1
  Steps = 5
  Design = "short"
INVARIANTS Faithful Prompt Released LongLived ClosureOK
PROPERTIES Independent Settles
CHECK_DEADLOCK FALSE
