CONSTANTS
 NSs = {"a", "b"}
 Names = {"x", "y"}
 Writers = {1, 2}
 Readers = {11}
 MaxOps = 3
 Single = FALSE
 NoLock2 = FALSE
 Nested = FALSE
 CopyBack = TRUE
SPECIFICATION Spec
INVARIANTS ReadsAreReal NothingLost
