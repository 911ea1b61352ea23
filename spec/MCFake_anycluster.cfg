SPECIFICATION Spec
CONSTANTS
  MaxV = 5
  Covering <- AnyCluster
INVARIANTS WatchFolds NoForeign OnceEach
CHECK_DEADLOCK FALSE
