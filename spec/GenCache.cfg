SPECIFICATION GenSpec
CONSTANTS
  Types <- GenTypes
  ClusterNames = {"default", "c2", "Default", "admin@c-3"}
  SpacesOf <- GenSpaces
  Names = {"x", "X", "b-x", "x.y"}
  Labs = {"p", "q", ""}
  MaxVersion = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
