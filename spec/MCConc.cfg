CONSTANTS
 NSs = {"a", "b"}
 Names = {"x", "y"}
 Writers = {1}
 Readers = {11, 12}
 MaxOps = 3
 Single = TRUE
 NoLock2 = FALSE
 Nested = FALSE
 CopyBack = FALSE
SPECIFICATION Spec
INVARIANTS ReadsAreReal NothingLost
