----------------------------- MODULE TraceReload -----------------------------
(***************************************************************************)
(* Is a recorded history of the real program a behaviour of CkubeReload    *)
(* with the answers of CkubeServe?  Mechanism (what the kernel reports,    *)
(* when the watcher looks) is hidden; what counts is                       *)
(*  - soon after the files were written last, if they can be loaded,       *)
(*    exactly they are served, and exactly their watches are open;         *)
(*  - as long as there was nothing else that could be loaded, every single *)
(*    answer is that of the configuration in service;                      *)
(*  - in between every answer is that of one of the configurations there   *)
(*    have been, possibly with a cache which is still filling.             *)
(***************************************************************************)
EXTENDS CkubeServe, Json, IOUtils

VARIABLES l, disk, poss, seen, fresh   \* fresh: caches may still be filling
tvars == <<l, disk, poss, seen, fresh>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1

Loadable(d) == d.cfg.ok /\ d.kube.ok
Pairs(s) == {[cfg |-> c, kube |-> k] : c \in {x \in s.cfg : x.ok}, k \in {x \in s.kube : x.ok}}
SetOf(q) == {q[i] : i \in DOMAIN q}
\* what was observed, as CkubeServe describes it
Seen(o) == [ans |-> [i \in 1..Len(o.ans) |-> [code |-> o.ans[i].code, via |-> o.ans[i].via, items |-> SetOf(o.ans[i].items)]],
            open |-> SetOf(o.open), count |-> SetOf(o.count)]
NoDup(o) == /\ \A i \in DOMAIN o.ans : Cardinality(SetOf(o.ans[i].items)) = Len(o.ans[i].items)
            /\ Cardinality(SetOf(o.open)) = Len(o.open)

Become(d, again) ==   \* again: what was there before is loaded again meanwhile
  /\ disk' = d
  /\ seen' = [cfg |-> seen.cfg \cup {d.cfg}, kube |-> seen.kube \cup {d.kube}]
  /\ poss' = IF Loadable(d) THEN poss \cup Pairs(seen') ELSE poss
  /\ fresh' = (fresh \/ Loadable(d) \/ (again /\ Loadable(disk)))

TReset ==
  /\ IsEvent("reset")
  /\ disk' = [cfg |-> E.cfg, kube |-> E.kube]
  /\ seen' = [cfg |-> {E.cfg}, kube |-> {E.kube}]
  /\ poss' = {disk'}
  /\ fresh' = TRUE
TOp ==
  /\ IsEvent("op")
  /\ Become(IF "cfg" \in DOMAIN E THEN [cfg |-> E.cfg, kube |-> E.kube] ELSE [disk EXCEPT ![E.f] = E.c], E.how = "churn")

\* One answer in between: the token, the default cluster and the rest may be looked up
\* before and after a reload, and caches start empty.
Possible(i, a) ==
  \E tk \in {q.cfg.token : q \in poss}, cur \in {q.kube.cur : q \in poss}, q2 \in poss :
    LET x == Answer([q2.cfg EXCEPT !.token = tk], [q2.kube EXCEPT !.cur = cur], Probes[i]) IN
    a.code = x.code /\ a.via = x.via /\ (a.items = x.items \/ (a.via = "cache" /\ a.items = {}))
TSeen ==
  /\ IsEvent("seen")
  /\ NoDup(E.obs)
  /\ LET o == Seen(E.obs) IN
     (IF fresh THEN \A i \in DOMAIN o.ans : Possible(i, o.ans[i])
      ELSE \E q \in poss : LET x == Expected(q.cfg, q.kube) IN o.ans = x.ans /\ o.count = x.count) = TRUE   \* a value, not a choice
  /\ UNCHANGED <<disk, poss, seen, fresh>>

TSettled ==
  /\ IsEvent("settled")
  /\ NoDup(E.obs)
  /\ LET o == Seen(E.obs)
         p == IF Loadable(disk) THEN {disk} ELSE poss IN
     /\ poss' = {q \in p : o = Expected(q.cfg, q.kube)}
     /\ poss' # {}
  /\ seen' = [cfg |-> {q.cfg : q \in poss'} \cup {disk.cfg}, kube |-> {q.kube : q \in poss'} \cup {disk.kube}]
  /\ fresh' = (Cardinality(poss') > 1)
  /\ UNCHANGED disk

TInit == l = 1 /\ disk = [cfg |-> Missing, kube |-> Missing] /\ poss = {} /\ seen = [cfg |-> {}, kube |-> {}] /\ fresh = TRUE
TNext == TReset \/ TOp \/ TSeen \/ TSettled
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
