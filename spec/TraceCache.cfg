SPECIFICATION TSpec
CONSTANTS
  Types = {}
  ClusterNames = {}
  SpacesOf <- TSpaces
  Names = {}
  Labs = {}
  MaxVersion = 0
POSTCONDITION Accepted
INVARIANT GaugeIsCount GaugeCovers
CHECK_DEADLOCK FALSE
