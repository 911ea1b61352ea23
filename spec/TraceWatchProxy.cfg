SPECIFICATION TSpec
CONSTANTS
  Stream <- TStream
  Text = {}
  Limit = 1800
  ReqLimit = 60
  Design = "right"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
