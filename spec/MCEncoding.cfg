SPECIFICATION Spec
CONSTANTS
 Each = 2
 Width = 1
 MaxLen = 150
 Design = "right"
INVARIANTS RoundTrip Fits Distinct
CHECK_DEADLOCK FALSE
