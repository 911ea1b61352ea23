SPECIFICATION GenSpec
INVARIANT EmitH
CHECK_DEADLOCK FALSE
