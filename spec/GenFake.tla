------------------------------ MODULE GenFake ------------------------------
(* Call sequences for the fake server, printed by the simulator. *)
EXTENDS CkubeFake, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
Pick(S) == {RandomElement(S)}
Types == {"pods", "nodes", "widgets", "deployments"}
Cs == {"c1", "c2", "c10"}
NsOf(t) == IF t = "nodes" THEN {""} ELSE {"n1", "n2", "n10", "n"}
Names == {"a", "b", "ab"}
CsSeqs == {<< >>, << >>, <<"c1">>, <<"c2">>, <<"c2", "c1">>, <<"c10", "c1", "c2">>, <<"c9">>}
H(r) == hist' = Append(hist, r)
V == Len(hist) + 1
Opened == {i \in DOMAIN watches : watches[i].open}
Start == deflt = "" /\ deflt' \in Pick({"c1", "c2", "default"}) /\ (\E r \in Pick(1..3) : reader' = (r > 1)) /\ UNCHANGED <<obj, watches, events, hist>>
Calls(R, t, c, n, f, cs, m, ns, q, t0) ==
       LET k == <<t, Cluster(c), ns, n>>
           ask == [op |-> "get", t |-> t, c |-> c, ns |-> ns, n |-> n]
           call(o) == [op |-> o, t |-> t, c |-> c, ns |-> ns, n |-> n, v |-> V, style |-> m]
       IN IF R <= 9 THEN (IF CanCreate(k) THEN Create(k, V) ELSE Fail) /\ H(call("create"))
          ELSE IF R <= 14 THEN IF m = 9 THEN Fail /\ H(call("mismatch")) ELSE (IF CanChange(k) THEN Update(k, V) ELSE Fail) /\ H(call("update"))
          ELSE IF R <= 18 THEN (IF CanChange(k) THEN Delete(k) ELSE Fail) /\ H(call("delete"))
          ELSE IF R <= 21 THEN Fail /\ H(ask)
          ELSE IF R <= 25 THEN Fail /\ H([op |-> "list", t |-> t, ns |-> q, cs |-> cs])
          ELSE IF R <= 28 THEN IF Cardinality(Opened) < 4 THEN Open(V, t, q, cs) /\ H([op |-> "open", id |-> V, t |-> t, ns |-> q, cs |-> cs, style |-> m])
                               ELSE \E i \in Pick(Opened) : Close(i) /\ H([op |-> "close", id |-> i])
          ELSE IF R = 29 /\ f = 1 THEN Reset /\ H([op |-> "reset"])
          ELSE Fail /\ H(ask)
Step ==
  /\ deflt # ""
  /\ Len(hist) < Depth
  /\ \E R \in Pick(1..30), tt \in Pick(1..8), c \in Pick(Cs \cup {""}), n \in Pick(Names), f \in Pick(1..6), cs \in Pick(CsSeqs), m \in Pick(0..9) :
     LET t == (IF tt <= 4 THEN "pods" ELSE IF tt <= 6 THEN "widgets" ELSE IF tt = 7 THEN "nodes" ELSE "deployments") IN
     \E ns \in Pick(NsOf(t)) :
     \E q \in Pick(NsOf(t) \cup {""}) :
       LET k0 == <<t, Cluster(c), ns, n>> IN
       \E k \in Pick(IF m < 6 /\ R \in 10..21 /\ obj # << >> THEN DOMAIN obj ELSE {k0}) :
       Calls(R, k[1], IF k[2] = deflt /\ f = 2 THEN "" ELSE k[2], k[4], f, cs, m, k[3], IF q # "" /\ k[1] = "nodes" THEN "" ELSE q, t)
GenNext ==
  \/ Start
  \/ Step
GenSpec == deflt = "" /\ obj = << >> /\ watches = << >> /\ reader = FALSE /\ events = << >> /\ hist = << >> /\ [][GenNext]_<<fvars, hist>>
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson([deflt |-> deflt, reader |-> reader, steps |-> hist]))
=============================================================================
