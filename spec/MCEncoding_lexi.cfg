SPECIFICATION Spec
CONSTANTS
 Each = 2
 Width = 1
 MaxLen = 60
 Design = "lexi"
INVARIANTS RoundTrip Fits Distinct
CHECK_DEADLOCK FALSE
