---------------------------- MODULE CkubeDeploy ----------------------------
(***************************************************************************)
(* The services of a deployment.  A pod belongs to the deployment that     *)
(* made the replica set that made the pod: the replica set is called       *)
(* <deployment>-<hash>, where the hash has no '-'.  Pods and services come *)
(* and go; an answer is about those cached at that instant.                *)
(*                                                                         *)
(* Bound to the code: api/extend (Deploy2Service), utils (IsSubsetOf).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES deflt,  \* default cluster
          pods,   \* [<<cluster, namespace, name>> -> [labels, owners]]
          svcs    \* [<<cluster, namespace, name>> -> selector], labels and selectors being functions of strings
dvars == <<deflt, pods, svcs>>

\* An owner is <<kind, name, deployment>>, the deployment being "" where there is none.
DeploymentOf(p) == {o[3] : o \in {p.owners[i] : i \in DOMAIN p.owners}} \ {""}

Selects(sel, labels) == DOMAIN sel # {} /\ \A k \in DOMAIN sel : k \in DOMAIN labels /\ labels[k] = sel[k]

PodsOf(P, c, ns, dep) == {k \in DOMAIN P : k[1] = c /\ k[2] = ns /\ dep \in DeploymentOf(P[k])}
ServicesOf(P, S, c, ns, dep) ==
  {s \in DOMAIN S : s[1] = c /\ s[2] = ns /\ \E k \in PodsOf(P, c, ns, dep) : Selects(S[s], P[k].labels)}

Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
PutPod(k, labels, owners) == pods' = Put(pods, k, [labels |-> labels, owners |-> owners]) /\ UNCHANGED <<deflt, svcs>>
DelPod(k) == pods' = Drop(pods, k) /\ UNCHANGED <<deflt, svcs>>
PutSvc(k, sel) == svcs' = Put(svcs, k, sel) /\ UNCHANGED <<deflt, pods>>
DelSvc(k) == svcs' = Drop(svcs, k) /\ UNCHANGED <<deflt, pods>>
Addressed(c) == IF c = "" THEN deflt ELSE c
Answer(c, ns, dep) == ServicesOf(pods, svcs, Addressed(c), ns, dep)
=============================================================================
