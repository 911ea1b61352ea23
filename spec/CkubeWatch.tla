----------------------------- MODULE CkubeWatch -----------------------------
(***************************************************************************)
(* One watch stream per resource type and cluster keeps the cache of that  *)
(* type and cluster.  A stream is (re)established without a list: the API  *)
(* server first reports what exists, then what changes.                    *)
(*                                                                         *)
(* phase of a stream                                                       *)
(*   connecting  a watch request is on its way                             *)
(*   fresh       established, nothing reported yet: the cache still holds  *)
(*               what was known before                                     *)
(*   synced      the cache is what this stream has reported                *)
(*   wait        lost or refused, to be retried                            *)
(*   stopped     never again                                               *)
(*                                                                         *)
(* Bound to the code: watcher.watchResources, Start, Stop.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Stream, Id, MaxVer, Faults, Design   \* Design: "right" or a deliberately wrong one

VARIABLES
  truth,     \* [Stream -> objects in the cluster: partial function from Id to version]
  queue,     \* [Stream -> reports the API server still has to send on this connection]
  phase,
  cache,     \* [Stream -> partial function from Id to version]
  reported,  \* history: what the current stream has reported so far
  kept,      \* history: the cache when the last stream was lost
  ver, faults
wvars == <<truth, queue, phase, cache, reported, kept, ver, faults>>

Nothing == << >>
Without(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]
With(f, i, v) == (i :> v) @@ f
Apply(f, e) == CASE e.typ \in {"ADDED", "MODIFIED"} -> With(f, e.id, e.v)
                 [] e.typ = "DELETED" -> Without(f, e.id)
                 [] OTHER -> f
Open(s) == phase[s] \in {"fresh", "synced"}

\* ---- what a stream event does to the cache of its stream ----------------------
\* A report (object event) on a stream in phase p with cache c.
AfterReport(p, c, e) == IF p = "fresh" THEN Apply(IF Design = "noclear" THEN c ELSE Nothing, e) ELSE Apply(c, e)
\* A stream that ends, or reports an error, before its first object event: the cache
\* may already be emptied, or not yet.
AfterEnd(p, c) == IF p = "fresh" THEN {c, Nothing} ELSE {c}

\* ---- actions --------------------------------------------------------------------
WInit ==
  /\ truth = [s \in Stream |-> Nothing] /\ queue = [s \in Stream |-> << >>]
  /\ phase = [s \in Stream |-> "connecting"] /\ cache = [s \in Stream |-> Nothing]
  /\ reported = [s \in Stream |-> Nothing] /\ kept = [s \in Stream |-> Nothing]
  /\ ver = 0 /\ faults = 0

\* The cluster changes.
Emit(s, e) == IF Open(s) THEN [queue EXCEPT ![s] = Append(@, e)] ELSE queue
UpPut(s, i) ==
  /\ ver < MaxVer /\ ver' = ver + 1
  /\ truth' = [truth EXCEPT ![s] = With(@, i, ver + 1)]
  /\ queue' = Emit(s, [typ |-> IF i \in DOMAIN truth[s] THEN "MODIFIED" ELSE "ADDED", id |-> i, v |-> ver + 1])
  /\ UNCHANGED <<phase, cache, reported, kept, faults>>
UpDel(s, i) ==
  /\ i \in DOMAIN truth[s] /\ ver < MaxVer /\ ver' = ver + 1
  /\ truth' = [truth EXCEPT ![s] = Without(@, i)]
  /\ queue' = Emit(s, [typ |-> "DELETED", id |-> i, v |-> ver + 1])
  /\ UNCHANGED <<phase, cache, reported, kept, faults>>

\* All sequences listing what exists.
RECURSIVE SetToSeqs(_)
SetToSeqs(S) == IF S = {} THEN {<< >>} ELSE UNION {{<<x>> \o q : q \in SetToSeqs(S \ {x})} : x \in S}
Initial(s) == {[j \in 1..Len(q) |-> [typ |-> "ADDED", id |-> q[j], v |-> truth[s][q[j]]]] : q \in SetToSeqs(DOMAIN truth[s])}

Accept(s) ==
  /\ phase[s] = "connecting"
  /\ phase' = [phase EXCEPT ![s] = "fresh"]
  /\ queue' \in {[queue EXCEPT ![s] = q] : q \in Initial(s)}
  /\ reported' = [reported EXCEPT ![s] = Nothing]
  /\ cache' = IF Design = "clearatconnect" THEN [cache EXCEPT ![s] = Nothing] ELSE cache
  /\ UNCHANGED <<truth, kept, ver, faults>>
Deliver(s) ==
  /\ Open(s) /\ queue[s] # << >>
  /\ LET e == Head(queue[s]) IN
     /\ cache' = [cache EXCEPT ![s] = AfterReport(phase[s], @, e)]
     /\ reported' = [reported EXCEPT ![s] = Apply(@, e)]
  /\ queue' = [queue EXCEPT ![s] = Tail(@)]
  /\ phase' = [phase EXCEPT ![s] = "synced"]
  /\ UNCHANGED <<truth, kept, ver, faults>>
Lose(s, C) ==
  /\ \E c \in C : cache' = [cache EXCEPT ![s] = c] /\ kept' = [kept EXCEPT ![s] = c]
  /\ phase' = [phase EXCEPT ![s] = IF Design = "giveup" /\ faults >= Faults - 1 THEN "stopped" ELSE "wait"]
  /\ queue' = [queue EXCEPT ![s] = << >>]
  /\ UNCHANGED <<truth, reported, ver>>
Break(s) == Open(s) /\ faults < Faults /\ faults' = faults + 1 /\ Lose(s, AfterEnd(phase[s], cache[s]))
Refuse(s) ==
  /\ phase[s] = "connecting" /\ faults < Faults /\ faults' = faults + 1
  /\ phase' = [phase EXCEPT ![s] = "wait"]
  /\ UNCHANGED <<truth, queue, cache, reported, kept, ver>>
\* A stream lives for an hour at most.  One that has had nothing to report all its
\* life tells that there is nothing.
AfterExpiry(p, c) == IF p = "fresh" THEN {Nothing} ELSE {c}
Expire(s) == Open(s) /\ queue[s] = << >> /\ Lose(s, AfterExpiry(phase[s], cache[s])) /\ UNCHANGED faults
Retry(s) ==
  /\ phase[s] = "wait" /\ phase' = [phase EXCEPT ![s] = "connecting"]
  /\ UNCHANGED <<truth, queue, cache, reported, kept, ver, faults>>
Stop ==
  /\ \E s \in Stream : phase[s] # "stopped"
  /\ phase' = [s \in Stream |-> "stopped"] /\ queue' = [s \in Stream |-> << >>]
  /\ kept' = cache
  /\ UNCHANGED <<truth, cache, reported, ver, faults>>

WNext ==
  \/ \E s \in Stream, i \in Id : UpPut(s, i) \/ UpDel(s, i)
  \/ \E s \in Stream : Accept(s) \/ Deliver(s) \/ Break(s) \/ Refuse(s) \/ Expire(s) \/ Retry(s)
  \/ Stop
WSpec == WInit /\ [][WNext]_wvars

\* ---- the guarantees ----------------------------------------------------------------
\* Until the new stream reports something the cache is what it was.
Survives == \A s \in Stream : phase[s] \in {"connecting", "fresh", "wait", "stopped"} => cache[s] = kept[s]
\* From its first report on the cache is exactly what the stream has reported.
Exact == \A s \in Stream : phase[s] = "synced" => cache[s] = reported[s]
\* Once everything is delivered this is the state of the cluster.
Current == \A s \in Stream : phase[s] = "synced" /\ queue[s] = << >> => cache[s] = truth[s]
\* A step of one stream leaves the cache of the others alone; nothing changes after a stop.
Isolated == [][Cardinality({s \in Stream : cache'[s] # cache[s]}) <= 1]_wvars
Final == [][\A s \in Stream : phase[s] = "stopped" => phase'[s] = "stopped" /\ cache'[s] = cache[s]]_wvars

\* Once faults and changes stop, the cache becomes and stays what the cluster holds.
LNext == \/ \E s \in Stream, i \in Id : UpPut(s, i) \/ UpDel(s, i)
         \/ \E s \in Stream : Accept(s) \/ Deliver(s) \/ Break(s) \/ Refuse(s) \/ Expire(s) \/ Retry(s)
LSpec == WInit /\ [][LNext]_wvars
         /\ \A s \in Stream : WF_wvars(Accept(s)) /\ WF_wvars(Deliver(s)) /\ WF_wvars(Retry(s)) /\ WF_wvars(Expire(s))
Converges == <>(\A s \in Stream : cache[s] = truth[s])
             /\ []<>(\A s \in Stream : cache[s] = truth[s])
=============================================================================
