------------------------------ MODULE MCDeploy ------------------------------
(* The design, exhaustively for small constants: the way the owner's name is *)
(* taken apart gives the deployment back, and nothing outside the asked      *)
(* cluster, namespace and deployment influences an answer.                   *)
EXTENDS CkubeDeploy
CONSTANTS Deps, Hashes, Split(_)
Cs == {"c1", "c2"}
Lab == {<< >>, [a |-> "1"], [a |-> "1", b |-> "1"], [a |-> "2"]}
Own == {<< >>} \cup {<<<<"ReplicaSet", d \o "-" \o h, d>>>> : d \in Deps, h \in Hashes} \cup {<<<<"DaemonSet", d, "">>>> : d \in Deps}
PodKeys == {<<c, "n", "p">> : c \in Cs}
SvcKeys == {<<"c1", "n", "s">>, <<"c1", "m", "s">>}

\* the code: everything before the last '-' of the name of a replica set
LastDash(s) == CHOOSE i \in 0..Len(s) : (i = 0 \/ SubSeq(s, i, i) = "-") /\ \A j \in (i + 1)..Len(s) : SubSeq(s, j, j) # "-"
FirstDash(s) == CHOOSE i \in 1..(Len(s) + 1) : (i = Len(s) + 1 \/ SubSeq(s, i, i) = "-") /\ \A j \in 1..(i - 1) : SubSeq(s, j, j) # "-"
ByLastDash(s) == IF LastDash(s) = 0 THEN "" ELSE SubSeq(s, 1, LastDash(s) - 1)
ByFirstDash(s) == SubSeq(s, 1, FirstDash(s) - 1)
CodeDeps(p) == {Split(p.owners[i][2]) : i \in {j \in DOMAIN p.owners : p.owners[j][1] = "ReplicaSet"}} \ {""}
CodeAnswer(c, ns, dep) ==
  {s \in DOMAIN svcs : s[1] = c /\ s[2] = ns
     /\ \E k \in DOMAIN pods : k[1] = c /\ k[2] = ns /\ dep \in CodeDeps(pods[k]) /\ Selects(svcs[s], pods[k].labels)}

Init == deflt = "c1" /\ pods = << >> /\ svcs = << >>
Next == \/ \E k \in PodKeys, l \in Lab, o \in Own : PutPod(k, l, o)
        \/ \E k \in PodKeys : k \in DOMAIN pods /\ DelPod(k)
        \/ \E k \in SvcKeys, s \in Lab : PutSvc(k, s)
        \/ \E k \in SvcKeys : k \in DOMAIN svcs /\ DelSvc(k)
Spec == Init /\ [][Next]_dvars

Refines == \A c \in Cs, ns \in {"n", "m"}, d \in Deps : CodeAnswer(c, ns, d) = ServicesOf(pods, svcs, c, ns, d)
Only(f, c, ns) == [k \in {x \in DOMAIN f : x[1] = c /\ x[2] = ns} |-> f[k]]
Isolated == \A c \in Cs, ns \in {"n", "m"}, d \in Deps :
  LET P == [k \in PodsOf(pods, c, ns, d) |-> pods[k]] IN
  ServicesOf(pods, svcs, c, ns, d) = ServicesOf(P, Only(svcs, c, ns), c, ns, d)
=============================================================================
