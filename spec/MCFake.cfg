SPECIFICATION Spec
CONSTANTS
  MaxV = 5
  Covering <- RealCover
INVARIANTS WatchFolds NoForeign OnceEach
CHECK_DEADLOCK FALSE
