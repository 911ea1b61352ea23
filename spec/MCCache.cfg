SPECIFICATION Spec
CONSTANTS
  Types = {"pods", "nodes"}
  ClusterNames = {"c1", "c2"}
  SpacesOf <- MCSpaces
  Names = {"x"}
  Labs = {"p"}
  MaxVersion = 4
INVARIANT FoldOfHistory GaugeIsCount GaugeCovers
PROPERTY Isolation
CHECK_DEADLOCK FALSE
