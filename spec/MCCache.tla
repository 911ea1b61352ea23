------------------------------ MODULE MCCache ------------------------------
EXTENDS CkubeCache
MCSpaces(t) == IF t = "nodes" THEN {""} ELSE {"a", "b"}
View == <<cache, gauge, Len(hist)>>
=============================================================================
