---------------------------- MODULE TraceGateway ----------------------------
(***************************************************************************)
(* Did the real server treat every request as CkubeGateway demands?  A     *)
(* request event carries the request, the answer (status, digest of the    *)
(* body, which data it showed), and everything that reached an upstream.   *)
(***************************************************************************)
EXTENDS CkubeGateway, Json, IOUtils

VARIABLES cfg, objs, l
vars == <<cfg, objs, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1

TReset == IsEvent("reset") /\ cfg' = Trace[l].cfg
          /\ objs' = [t \in DOMAIN Trace[l].cfg.conf |-> SetOfSeq(Trace[l].objs[t])]
IdOf(o) == <<o.c, o.ns, o.n, o.v>>
Ids(S) == {IdOf(o) : o \in S}

Untouched(e) == e.hits = << >> /\ "up" \notin SetOfSeq(e.seen)
TReq ==
  /\ IsEvent("req")
  /\ LET e == Trace[l]
         r == e.r
         out == Outcome(cfg, r)
     IN CASE out = "public" -> e.st = 200 /\ Untouched(e) /\ e.seen = << >>
          [] out = "unauthorized" -> (e.st = 401 \/ (r.shape = "dirty" /\ e.st = 301)) /\ Untouched(e) /\ e.seen = << >>
          [] out = "notfound" -> e.st = 404 /\ Untouched(e) /\ e.seen = << >>
          [] out = "cache" ->
               /\ Untouched(e)
               /\ (CASE r.shape = "custom" -> IF {"pods", "services"} \subseteq DOMAIN cfg.conf THEN e.st = 200 ELSE e.st # 401
                    [] r.shape = "list" -> LET S == CachedItems(cfg, objs, r) IN
                         e.st = 200 /\ Len(e.items) = Cardinality(S) /\ SetOfSeq(e.items) = Ids(S)
                    [] r.shape = "get" -> LET S == CachedItem(cfg, objs, r) IN
                         IF S = {} THEN e.st = 404 /\ e.seen = << >> ELSE e.st = 200 /\ SetOfSeq(e.items) = Ids(S))
          [] out = "forward" ->
               /\ Len(e.hits) = 1 /\ Arrives(cfg, r, e.hits[1])
               /\ e.st = e.up.st
               /\ (r.m # "HEAD" => e.b = e.up.b)
               /\ "cache" \notin SetOfSeq(e.seen)
  /\ UNCHANGED <<cfg, objs>>

\* Requests sent at the same time, each with a number of its own in the query: every
\* one of them arrives once and gets the answer to it.
TBurst ==
  /\ IsEvent("burst")
  /\ LET e == Trace[l] IN
     \A i \in DOMAIN e.each :
       LET x == e.each[i]
           mine == SelectSeq(e.hits, LAMBDA h : "rid" \in DOMAIN h.q /\ h.q["rid"] = x.r.opts["rid"])
       IN /\ Outcome(cfg, x.r) = "forward"
          /\ Len(mine) = 1 /\ Arrives(cfg, x.r, mine[1])
          /\ x.st = x.up.st /\ (x.r.m # "HEAD" => x.b = x.up.b)
  /\ Len(Trace[l].hits) = Len(Trace[l].each)
  /\ UNCHANGED <<cfg, objs>>

TInit == cfg = << >> /\ objs = << >> /\ l = 1
TNext == TReset \/ TReq \/ TBurst
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
