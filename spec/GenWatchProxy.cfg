SPECIFICATION GenSpec
CONSTANTS
  Stream <- GStream
  Text = {}
  Limit = 1800
  ReqLimit = 60
  Design = "right"
INVARIANT EmitH
CHECK_DEADLOCK FALSE
