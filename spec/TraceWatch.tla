----------------------------- MODULE TraceWatch -----------------------------
(***************************************************************************)
(* Is a recorded run of the real watcher against the virtual API servers a *)
(* behaviour of CkubeWatch?  Every event carries, after the step, what is  *)
(* cached of every stream's type and cluster and the state of its          *)
(* connection: pend, open or none, with the number of attempts.            *)
(***************************************************************************)
EXTENDS CkubeWatch, Json, IOUtils

VARIABLES l, tries
tvars == <<wvars, l, tries>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
TStream == {t \o "|" \o c : t \in {"pods", "nodes", "widgets", "deployments"}, c \in {"c1", "c2"}}
E == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1

SetOfSeq(q) == {q[i] : i \in DOMAIN q}
Pairs(f) == {<<i, f[i]>> : i \in DOMAIN f}
Conn(s) == E.conn[s][1]
Try(s) == E.conn[s][2]
Agrees(s) ==
  /\ Len(E.cache[s]) = Cardinality(DOMAIN cache'[s]) /\ SetOfSeq(E.cache[s]) = Pairs(cache'[s])
  /\ Conn(s) = CASE phase'[s] = "connecting" -> "pend" [] phase'[s] \in {"fresh", "synced"} -> "open" [] OTHER -> "none"
  /\ tries'[s] = Try(s)
Observed == DOMAIN E.cache = Stream /\ E.strange = << >> /\ \A s \in Stream : Agrees(s)
SameTries == UNCHANGED tries

TReset ==
  /\ IsEvent("reset")
  /\ truth' = [s \in Stream |-> Nothing] /\ queue' = [s \in Stream |-> << >>]
  /\ phase' = [s \in Stream |-> "connecting"] /\ cache' = [s \in Stream |-> Nothing]
  /\ reported' = [s \in Stream |-> Nothing] /\ kept' = [s \in Stream |-> Nothing]
  /\ ver' = 0 /\ faults' = 0
  /\ tries' = [s \in Stream |-> 1]
  /\ Observed
TPut == IsEvent("put") /\ UpPut(E.s, E.id) /\ SameTries /\ Observed
TDel == IsEvent("del") /\ UpDel(E.s, E.id) /\ SameTries /\ Observed
TAccept == /\ IsEvent("accept")
           /\ phase[E.s] = "connecting"
           /\ E.q \in Initial(E.s)
           /\ Accept(E.s) /\ queue'[E.s] = E.q
           /\ SameTries /\ Observed
TDeliver == IsEvent("deliver") /\ Deliver(E.s) /\ SameTries /\ Observed
\* An error event is no report; it may or may not count as one.
TErrev == /\ IsEvent("errev") /\ Open(E.s)
          /\ \/ UNCHANGED wvars
             \/ /\ phase[E.s] = "fresh"
                /\ cache' = [cache EXCEPT ![E.s] = Nothing] /\ phase' = [phase EXCEPT ![E.s] = "synced"]
                /\ UNCHANGED <<truth, queue, reported, kept, ver, faults>>
          /\ SameTries /\ Observed
TBreak == IsEvent("break") /\ Break(E.s) /\ SameTries /\ Observed
TRefuse == IsEvent("refuse") /\ Refuse(E.s) /\ SameTries /\ Observed
TStop == IsEvent("stop") /\ Stop /\ SameTries /\ Observed

\* The stop arrives together with answers to watch requests and with the next event of
\* every open stream: such an event may still be the last one to reach the cache.  (What
\* is reported right after the stop has version 888888, which no stream has queued.)
TStopRace ==
  /\ IsEvent("stoprace")
  /\ cache' = [s \in Stream |->
                 IF Open(s) /\ queue[s] # << >>
                    /\ SetOfSeq(E.cache[s]) = Pairs(AfterReport(phase[s], cache[s], Head(queue[s])))
                 THEN AfterReport(phase[s], cache[s], Head(queue[s])) ELSE cache[s]]
  /\ phase' = [s \in Stream |-> "stopped"] /\ queue' = [s \in Stream |-> << >>] /\ kept' = cache'
  /\ SameTries /\ UNCHANGED <<truth, reported, ver, faults>>
  /\ Observed

\* Time passes: lost streams are retried (after ten minutes at the latest they have
\* been), and streams or attempts older than an hour end.
After(s) ==
  CASE phase[s] = "stopped" -> {[p |-> "stopped", c |-> cache[s]]}
    [] phase[s] = "wait" -> {[p |-> "connecting", c |-> cache[s]]} \cup (IF E.d < 600 THEN {[p |-> "wait", c |-> cache[s]]} ELSE {})
    [] phase[s] = "connecting" -> {[p |-> p, c |-> cache[s]] : p \in {"connecting", "wait"}}
    [] OTHER -> {[p |-> phase[s], c |-> cache[s]]}
                \cup {[p |-> p, c |-> c] : p \in {"wait", "connecting"}, c \in AfterEnd(phase[s], cache[s]) \cup AfterExpiry(phase[s], cache[s])}
TAdvance ==
  /\ IsEvent("advance")
  /\ \E a \in {[s \in Stream |-> CHOOSE x \in After(s) \cup {[p |-> "none", c |-> Nothing]} :
                   \/ x \in After(s) /\ SetOfSeq(E.cache[s]) = Pairs(x.c)
                      /\ Conn(s) = CASE x.p = "connecting" -> "pend" [] x.p \in {"fresh", "synced"} -> "open" [] OTHER -> "none"
                   \/ x.p = "none"
                      /\ ~\E y \in After(s) : SetOfSeq(E.cache[s]) = Pairs(y.c)
                           /\ Conn(s) = CASE y.p = "connecting" -> "pend" [] y.p \in {"fresh", "synced"} -> "open" [] OTHER -> "none"]} :
       /\ \A s \in Stream : a[s].p # "none"
       /\ phase' = [s \in Stream |-> a[s].p]
       /\ cache' = [s \in Stream |-> a[s].c]
       /\ queue' = [s \in Stream |-> IF a[s].p = phase[s] THEN queue[s] ELSE << >>]
       /\ tries' = [s \in Stream |-> Try(s)]
       /\ \A s \in Stream :
            /\ Try(s) >= tries[s]
            /\ phase[s] = "stopped" => Try(s) = tries[s]
            /\ phase[s] \in {"fresh", "synced"} /\ a[s].p = phase[s] => Try(s) = tries[s]
  /\ kept' = [s \in Stream |-> IF phase'[s] \in {"wait", "connecting", "stopped"} THEN cache'[s] ELSE kept[s]]
  /\ UNCHANGED <<truth, reported, ver, faults>>
  /\ Observed
\* No API server answers for hours: what is cached stays, and every lost stream is tried again and again.
TOutage ==
  /\ IsEvent("outage")
  /\ \A s \in Stream : phase[s] \in {"wait", "connecting"} /\ Try(s) > tries[s]
  /\ phase' = [s \in Stream |-> "wait"] /\ tries' = [s \in Stream |-> Try(s)]
  /\ UNCHANGED <<truth, queue, cache, reported, kept, ver, faults>>
  /\ Observed
\* Two hours without faults: what is cached is what exists.
TSettle ==
  /\ IsEvent("settle")
  /\ \A s \in Stream : SetOfSeq(E.cache[s]) = Pairs(IF phase[s] = "stopped" THEN cache[s] ELSE truth[s])
  /\ cache' = [s \in Stream |-> IF phase[s] = "stopped" THEN cache[s] ELSE truth[s]]
  /\ phase' = [s \in Stream |-> IF phase[s] = "stopped" THEN "stopped"
                                ELSE CASE Conn(s) = "pend" -> "connecting" [] Conn(s) = "open" -> "synced" [] OTHER -> "wait"]
  /\ tries' = [s \in Stream |-> IF phase[s] = "stopped" THEN tries[s] ELSE Try(s)]
  /\ reported' = truth /\ kept' = cache' /\ queue' = [s \in Stream |-> << >>]
  /\ UNCHANGED <<truth, ver, faults>>
  /\ Observed

TInit == WInit /\ l = 1 /\ tries = [s \in Stream |-> 0]
TNext == TReset \/ TPut \/ TDel \/ TAccept \/ TDeliver \/ TErrev \/ TBreak \/ TRefuse \/ TStop \/ TStopRace \/ TAdvance \/ TOutage \/ TSettle
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
