CONSTANTS
 NSs = {"a", "b"}
 Names = {"x", "y"}
 Writers = {1, 2}
 Readers = {11}
 MaxOps = 2
 Single = FALSE
 NoLock2 = FALSE
 Nested = FALSE
 CopyBack = FALSE
SPECIFICATION Spec
INVARIANTS ReadsAreReal NothingLost
