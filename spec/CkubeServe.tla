----------------------------- MODULE CkubeServe -----------------------------
(***************************************************************************)
(* What the program serves under a configuration: the pair of the contents *)
(* of its configuration file (resource types with an index value, token)   *)
(* and of its kubeconfig (contexts, each naming an API server and          *)
(* credentials, and a current context).  Every API server U holds one      *)
(* object of every type, whose name tells the server and the type.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Types == {"pods", "deployments", "widgets"}
Names == {"k1", "k2", "k3"}
Ups == {"A", "B", "C"}
Range(s) == {s[i] : i \in 1..Len(s)}

\* cfg:  [ok, bad, types: <<[t, ix]>>, token]
\* kube: [ok, bad, ctx: <<[n, up, auth]>>, cur]
Missing == [ok |-> FALSE, bad |-> "missing"]
TypesOf(c) == {x.t : x \in Range(c.types)}
IxOf(c, t) == (CHOOSE x \in Range(c.types) : x.t = t).ix
CtxNames(k) == {x.n : x \in Range(k.ctx)}
Ctx(k, n) == CHOOSE x \in Range(k.ctx) : x.n = n
Default(k) == IF k.cur = "" THEN "default" ELSE k.cur

\* Requests: a list of a type, possibly naming a cluster, with a token.
Probe == [t : Types, cl : Names \cup {"", "default"}, tok : {"t1", "t2", ""}]
Answer(c, k, p) ==
  LET cl == IF p.cl = "" THEN Default(k) ELSE p.cl IN
  IF c.token # "" /\ p.tok # c.token THEN [code |-> 401, via |-> "auth", items |-> {}]
  ELSE IF p.t \in TypesOf(c)
       THEN [code |-> 200, via |-> "cache",
             items |-> IF cl \in CtxNames(k) THEN {cl \o "/" \o Ctx(k, cl).up \o "-" \o p.t \o "/" \o IxOf(c, p.t)} ELSE {}]
  ELSE IF cl \in CtxNames(k) THEN [code |-> 200, via |-> "fwd", items |-> {Ctx(k, cl).up \o "/" \o Ctx(k, cl).auth}]
  ELSE [code |-> 404, via |-> "none", items |-> {}]

\* The watches that are open at the API servers: one for every type of every context.
Open(c, k) ==
  {[up |-> x.up, t |-> t, auth |-> x.auth,
    n |-> Cardinality({y \in Range(k.ctx) : y.up = x.up /\ y.auth = x.auth})] : x \in Range(k.ctx), t \in TypesOf(c)}

\* The counts of the metrics: one object of every type of every context.
Counts(c, k) == {[cl |-> x.n, t |-> t, n |-> 1] : x \in Range(k.ctx), t \in TypesOf(c)}

\* The requests of an observation.
Probes ==
  << [t |-> "pods", cl |-> "", tok |-> "t1"], [t |-> "pods", cl |-> "", tok |-> "t2"], [t |-> "pods", cl |-> "", tok |-> ""],
     [t |-> "deployments", cl |-> "", tok |-> "t1"], [t |-> "deployments", cl |-> "", tok |-> "t2"],
     [t |-> "widgets", cl |-> "", tok |-> "t1"], [t |-> "widgets", cl |-> "", tok |-> "t2"],
     [t |-> "pods", cl |-> "k1", tok |-> "t1"], [t |-> "pods", cl |-> "k1", tok |-> "t2"],
     [t |-> "pods", cl |-> "k2", tok |-> "t1"], [t |-> "pods", cl |-> "k2", tok |-> "t2"],
     [t |-> "pods", cl |-> "k3", tok |-> "t1"], [t |-> "pods", cl |-> "k3", tok |-> "t2"],
     [t |-> "deployments", cl |-> "k1", tok |-> "t1"], [t |-> "deployments", cl |-> "k2", tok |-> "t2"],
     [t |-> "deployments", cl |-> "k3", tok |-> "t1"], [t |-> "deployments", cl |-> "k2", tok |-> "t1"],
     [t |-> "widgets", cl |-> "k1", tok |-> "t1"], [t |-> "widgets", cl |-> "k2", tok |-> "t2"],
     [t |-> "widgets", cl |-> "k3", tok |-> "t1"], [t |-> "widgets", cl |-> "k1", tok |-> "t2"],
     [t |-> "pods", cl |-> "default", tok |-> "t1"], [t |-> "widgets", cl |-> "default", tok |-> "t2"] >>
Expected(c, k) == [ans |-> [i \in 1..Len(Probes) |-> Answer(c, k, Probes[i])], open |-> Open(c, k), count |-> Counts(c, k)]
=============================================================================
