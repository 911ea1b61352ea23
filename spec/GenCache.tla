------------------------------ MODULE GenCache ------------------------------
(* Histories for replay: printed by TLC's simulator when they reach the depth. *)
EXTENDS CkubeCache, Json, IOUtils
GenSpaces(t) == IF t = "nodes" THEN {""} ELSE {"a", "a-b"}
GenTypes == {"pods", "deployments", "nodes", "widgets"}
Depth == atoi(IOEnv.DEPTH)
\* Favour few keys so that histories collide on them.
GenNext ==
  /\ Len(hist) < Depth
  /\ \E T \in {RandomElement(Types)}, C \in {RandomElement(ClusterNames)}, N \in {RandomElement(Names)},
        L \in {RandomElement(Labs)}, R \in {RandomElement(1..20)} :
     \E S \in {RandomElement(SpacesOf(T))} :
       IF R > 18 THEN Do([op |-> "clean", t |-> T, c |-> C])
       ELSE Do([op |-> IF R <= 7 THEN "add" ELSE IF R <= 12 THEN "mod" ELSE "del",
                k |-> <<T, C, S, N>>, v |-> Len(hist) + 1, lab |-> L])
GenSpec == Init /\ [][GenNext]_<<cvars, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
