----------------------------- MODULE CkubeFake -----------------------------
(***************************************************************************)
(* The fake server: a store keyed by type, cluster, namespace and name,    *)
(* changed by create, update, delete and reset, read by get and list, with *)
(* an event reader and watches that are told of every successful change.   *)
(* A reset forgets the objects and tells nobody.                           *)
(*                                                                         *)
(* Bound to the code: pkg/client/fake (proxy, watch, Clean).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  deflt,    \* default cluster
  obj,      \* [<<type, cluster, namespace, name>> -> version of the body]
  watches,  \* [id -> [t, ns, cs, open, log]], log being what the watch has been told
  reader,   \* whether somebody reads the events
  events    \* what the reader has been told
fvars == <<deflt, obj, watches, reader, events>>

Cluster(c) == IF c = "" THEN deflt ELSE c
SetOf(s) == {s[i] : i \in DOMAIN s}
Covers(w, k) == w.open /\ w.t = k[1] /\ w.ns \in {"", k[3]} /\ (w.cs = << >> \/ k[2] \in SetOf(w.cs))
Tell(action, k, v) ==
  /\ watches' = [i \in DOMAIN watches |-> IF Covers(watches[i], k) THEN [watches[i] EXCEPT !.log = Append(@, <<action, v>>)] ELSE watches[i]]
  /\ events' = IF reader THEN Append(events, <<action, k[1], k[2], k[3], k[4], v>>) ELSE events
  /\ UNCHANGED <<deflt, reader>>

CanCreate(k) == k \notin DOMAIN obj
CanChange(k) == k \in DOMAIN obj
Create(k, v) == CanCreate(k) /\ obj' = (k :> v) @@ obj /\ Tell("add", k, v)
Update(k, v) == CanChange(k) /\ obj' = [obj EXCEPT ![k] = v] /\ Tell("update", k, v)
Delete(k) == CanChange(k) /\ obj' = [x \in DOMAIN obj \ {k} |-> obj[x]] /\ Tell("delete", k, obj[k])
Fail == UNCHANGED fvars
Reset == obj' = << >> /\ UNCHANGED <<deflt, watches, reader, events>>
Open(i, t, ns, cs) == watches' = (i :> [t |-> t, ns |-> ns, cs |-> cs, open |-> TRUE, log |-> << >>]) @@ watches /\ UNCHANGED <<deflt, obj, reader, events>>
Close(i) == watches' = [watches EXCEPT ![i].open = FALSE] /\ UNCHANGED <<deflt, obj, reader, events>>

\* ---- reads ----------------------------------------------------------------
Listing(t, ns, cs) == {k \in DOMAIN obj : k[1] = t /\ ns \in {"", k[3]} /\ k[2] \in (IF cs = << >> THEN {deflt} ELSE SetOf(cs))}
=============================================================================
