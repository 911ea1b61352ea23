----------------------------- MODULE CkubeCache -----------------------------
(***************************************************************************)
(* The cache at the heart of ckube: what is stored for every resource      *)
(* type, cluster, namespace and name, and the exported resource count.     *)
(*                                                                         *)
(* Bound to the code: store/memory (OnResourceAdded/Modified/Deleted,      *)
(* Clean, Get, Query).  One action per notification, because the cache is  *)
(* changed by exactly one goroutine per (type, cluster) and every          *)
(* notification touches one namespace map under its lock; the grain below  *)
(* that (namespace-wise clearing, concurrent readers) is CkubeConc.tla.    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Types,         \* resource types
          ClusterNames,  \* clusters
          SpacesOf(_),   \* namespaces in which objects of a type live ("" for cluster-wide types)
          Names,         \* object names
          Labs,          \* values of the indexed label
          MaxVersion     \* bound on the number of notifications (design model only)

VARIABLES
  cache,   \* [key -> [v |-> version, lab |-> label value]] for the keys present
  gauge    \* [<<type, cluster, namespace>> -> count] for the namespaces ever seen

cvars == <<cache, gauge>>

Keys == UNION {{<<t, c, s, n>> : c \in ClusterNames, s \in SpacesOf(t), n \in Names} : t \in Types}

Restrict(f, D) == [k \in D |-> f[k]]
InSpace(f, t, c, s) == {k \in DOMAIN f : k[1] = t /\ k[2] = c /\ k[3] = s}
OfStream(f, t, c) == {k \in DOMAIN f : k[1] = t /\ k[2] = c}

CInit == cache = << >> /\ gauge = << >>

\* The count exported for the namespace of key k after the cache became f.
Count(f, k) == (<<k[1], k[2], k[3]>> :> Cardinality(InSpace(f, k[1], k[2], k[3]))) @@ gauge

\* An object was reported added or modified: the last report wins, whatever was there.
Report(k, val) ==
  LET f == (k :> val) @@ cache IN
  /\ cache' = f
  /\ gauge' = Count(f, k)

\* An object was reported deleted: only its identity matters.
Remove(k) ==
  LET f == Restrict(cache, DOMAIN cache \ {k}) IN
  /\ cache' = f
  /\ gauge' = Count(f, k)

\* Everything of type t in cluster c is forgotten.  A cluster never heard of is an error
\* of the call, and no change.
Known(t, c) == \E g \in DOMAIN gauge : g[1] = t /\ g[2] = c
Clear(t, c) ==
  /\ cache' = Restrict(cache, DOMAIN cache \ OfStream(cache, t, c))
  /\ gauge' = [g \in DOMAIN gauge |-> IF g[1] = t /\ g[2] = c THEN 0 ELSE gauge[g]]

\* ---- reads ---------------------------------------------------------------
Has(k) == k \in DOMAIN cache
Listing(t) == {k \in DOMAIN cache : k[1] = t}
FindLab(t, lab) == {k \in Listing(t) : cache[k].lab = lab}

\* ---- the design, for exhaustive checking -----------------------------------
VARIABLE hist      \* operations so far (drives replay; the model's ghost for C01)

Step(op) ==
  CASE op.op = "add" -> Report(op.k, [v |-> op.v, lab |-> op.lab])
    [] op.op = "mod" -> Report(op.k, [v |-> op.v, lab |-> op.lab])
    [] op.op = "del" -> Remove(op.k)
    [] op.op = "clean" -> Clear(op.t, op.c)

Init == CInit /\ hist = << >>
Do(op) == Step(op) /\ hist' = Append(hist, op)
Next ==
  /\ Len(hist) < MaxVersion
  /\ \/ \E k \in Keys, lab \in Labs, o \in {"add", "mod"} : Do([op |-> o, k |-> k, v |-> Len(hist) + 1, lab |-> lab])
     \/ \E k \in Keys : Do([op |-> "del", k |-> k, v |-> Len(hist) + 1, lab |-> CHOOSE l \in Labs : TRUE])
     \/ \E t \in Types, c \in ClusterNames : Do([op |-> "clean", t |-> t, c |-> c])
Spec == Init /\ [][Next]_<<cvars, hist>>

\* C01: what is stored for an identity is decided by the last operation that concerns it.
Concerns(op, k) == IF op.op = "clean" THEN op.t = k[1] /\ op.c = k[2] ELSE op.k = k
LastFor(k) == LET I == {i \in DOMAIN hist : Concerns(hist[i], k)} IN
              IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FoldOfHistory ==
  \A k \in Keys :
    LET i == LastFor(k) IN
    IF i = 0 \/ hist[i].op \in {"del", "clean"} THEN ~Has(k)
    ELSE Has(k) /\ cache[k] = [v |-> hist[i].v, lab |-> hist[i].lab]
\* C01: one notification changes one identity, clearing exactly one (type, cluster).
Isolation ==
  [][LET op == hist'[Len(hist')] IN
     \A k \in Keys : ~Concerns(op, k) =>
        /\ (k \in DOMAIN cache) = (k \in DOMAIN cache')
        /\ (k \in DOMAIN cache => cache[k] = cache'[k])]_<<cvars, hist>>
\* C16: the exported count is the number of objects cached.
GaugeIsCount == \A g \in DOMAIN gauge : gauge[g] = Cardinality(InSpace(cache, g[1], g[2], g[3]))
GaugeCovers == \A k \in DOMAIN cache : <<k[1], k[2], k[3]>> \in DOMAIN gauge
=============================================================================
