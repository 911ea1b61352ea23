------------------------------ MODULE GenDeploy ------------------------------
(* Histories for the services of deployments, printed by the simulator.  Names *)
(* are chosen so that deployments contain, extend and look like each other.    *)
EXTENDS CkubeDeploy, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
Pick(S) == {RandomElement(S)}
Deps == {"web", "web-1", "we", "web-web", "1", "web-1-web", "ebw", "web.v2"}
Hash == {"web", "1", "5d4f8c7b9", "x"}
Cs == {"c1", "c2"}
Nss == {"n1", "n2"}
Keys == {"app", "tier", "x/y"}
Vals == {"a", ""}
Maps == UNION {[D -> Vals] : D \in {{}, {"app"}, {"app", "tier"}, {"app", "x/y"}}}
Owners(r, d, h) == IF r <= 7 THEN <<<<"ReplicaSet", d \o "-" \o h, d>>>>
                   ELSE IF r = 8 THEN << >>
                   ELSE IF r = 9 THEN <<<<IF h = "x" THEN "DaemonSet" ELSE IF h = "1" THEN "Job" ELSE "StatefulSet", d \o "-" \o h, "">>>>
                   ELSE IF r = 10 THEN <<<<"ReplicaSet", "plain", "">>>>
                   ELSE IF r = 11 THEN <<<<"Widget", d \o "-x", "">>, <<"ReplicaSet", d \o "-" \o h, d>>>>
                   ELSE <<<<"Deployment", d, "">>>>
\* labels the makers of pods add, which need not be in step with the others
Own(l, o, h) == IF o % 3 = 0 THEN l ELSE ("pod-template-hash" :> h) @@ (IF o % 3 = 1 THEN << >> ELSE ("controller-uid" :> "u" @@ "statefulset.kubernetes.io/pod-name" :> h)) @@ l
H(r) == hist' = Append(hist, r)
Flat(f) == [k \in DOMAIN f |-> f[k]]
Step ==
  /\ deflt # ""
  /\ Len(hist) < Depth
  /\ \E R \in Pick(1..20), c \in Pick(Cs), ns \in Pick(Nss), n \in Pick({"a", "b", "c", "d"}), d \in Pick(Deps), h \in Pick(Hash), o \in Pick(1..12), l \in Pick(Maps), m \in Pick(0..2) :
       LET k == <<c, ns, n>>
           labels == Own(l, R + o, h)
           selector == IF o = 1 THEN ("pod-template-hash" :> h) @@ l ELSE l IN
       IF R <= 6 THEN PutPod(k, labels, Owners(o, d, h)) /\ H([op |-> "putpod", k |-> k, labels |-> labels, owners |-> Owners(o, d, h)])
       ELSE IF R <= 7 THEN IF k \in DOMAIN pods THEN DelPod(k) /\ H([op |-> "delpod", k |-> k]) ELSE UNCHANGED <<dvars, hist>>
       ELSE IF R <= 11 THEN PutSvc(k, selector) /\ H([op |-> "putsvc", k |-> k, labels |-> selector, generic |-> m = 0])
       ELSE IF R <= 12 THEN IF k \in DOMAIN svcs THEN DelSvc(k) /\ H([op |-> "delsvc", k |-> k]) ELSE UNCHANGED <<dvars, hist>>
       ELSE UNCHANGED dvars /\
            IF R <= 18 /\ pods # << >>
            THEN \E p \in Pick(DOMAIN pods) :
                   H([op |-> "ask", c |-> IF m = 2 /\ p[1] = deflt THEN "" ELSE p[1], ns |-> p[2],
                      d |-> IF DeploymentOf(pods[p]) # {} THEN CHOOSE x \in DeploymentOf(pods[p]) : TRUE ELSE d])
            ELSE H([op |-> "ask", c |-> IF m = 2 THEN "" ELSE c, ns |-> ns, d |-> d])
GenNext == Step \/ (deflt = "" /\ deflt' \in Pick(Cs) /\ UNCHANGED <<pods, svcs, hist>>)
GenSpec == deflt = "" /\ pods = << >> /\ svcs = << >> /\ hist = << >> /\ [][GenNext]_<<dvars, hist>>
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson([deflt |-> deflt, steps |-> hist]))
=============================================================================
