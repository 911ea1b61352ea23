-------------------------- MODULE TraceWatchProxy --------------------------
(***************************************************************************)
(* Is a recorded run of the real proxy a behaviour of CkubeWatchProxy?      *)
(* After every step of the environment the run was recorded when nothing    *)
(* but time could change anything any more, and no time had passed: so the  *)
(* proxy must have done everything it can.                                  *)
(***************************************************************************)
EXTENDS CkubeWatchProxy, Json, IOUtils
VARIABLES l, req
tvars == <<st, n, l, req>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
TStream == {"s1", "s2", "s3"}
Reqs == {"r1", "r2"}
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1 /\ UNCHANGED n

UpSeen(x) == CASE x.pc = "none" -> "none" [] x.pc = "wait" -> "asked" [] x.pc = "copy" -> "open" [] OTHER -> "closed"
Expired(x) == x.pc = "done" /\ Late(x)
\* may the stream x be what is observed, o?
Agrees(x, o) ==
  /\ o.up = UpSeen(x) \/ (x.stalled /\ x.up \in {"ended", "broken"} /\ o.up = "closed")   \* the rest is on its way
  /\ IF Expired(x)
     THEN /\ x.cl = "left" \/ o.cl = "over" \/ x.stalled
          /\ IsPrefix(x.got, o.got) /\ IsPrefix(o.got, x.sent)
     ELSE /\ o.cl = x.cl \/ (x.stalled /\ x.cl = "over" /\ o.cl = "streaming")
          /\ (o.rest = "" \/ (x.cl = "left" /\ o.rest = "part"))   \* a client may leave in the middle of a line
          /\ o.got = x.got \/ (x.up = "broken" /\ x.cl = "over" /\ o.got = SubSeq(x.sent, 1, Len(x.sent) - Tail1(x.sent)))
                           \* a client that leaves gets nothing any more
                           \/ (x.cl = "left" /\ IsPrefix(o.got, x.sent))
          /\ o.status = x.status \/ (x.cl = "left")
          /\ o.body = "" \/ x.up \in {"refused", "failed"}
          /\ x.up = "refused" /\ x.cl = "over" => o.body = "refused"
  /\ o.ctype
Observed(T) ==
  /\ \A s \in Stream : Agrees(T[s], E.obs[s])
  /\ st' = [s \in Stream |-> IF Expired(T[s]) \/ (T[s].up = "broken" /\ T[s].cl = "over") THEN [T[s] EXCEPT !.got = E.obs[s].got] ELSE T[s]]
Req(r, q) == /\ req' = [req EXCEPT ![r] = q]
ReqsSeen == \A r \in Reqs : E.reqs[r] = req'[r].st
OnS(x) == Observed([st EXCEPT ![E.s] = Closure(x)]) /\ UNCHANGED req /\ ReqsSeen
X == st[E.s]

TReset == IsEvent("reset") /\ st' = [s \in Stream |-> NoStream] /\ req' = [r \in Reqs |-> [st |-> "none", age |-> 0]]
TAsk == IsEvent("ask") /\ OnS(Ask(X))
TAccept == IsEvent("accept") /\ OnS(Accept(X))
TRefuse == IsEvent("refuse") /\ OnS(Refuse(X, E.code))
TFail == IsEvent("fail") /\ OnS(Fail(X))
TSend == IsEvent("send") /\ OnS(Send(X, E.q))
TEnd == IsEvent("end") /\ OnS(EndUp(Send(X, E.q), E.how))
TStall == IsEvent("stall") /\ OnS(Stall(X))
TUnstall == IsEvent("unstall") /\ OnS(Unstall(X))
TLeave == IsEvent("leave") /\ OnS(LeaveCl([X EXCEPT !.stalled = FALSE]))
TAdvance ==
  /\ IsEvent("advance")
  /\ req' = [r \in Reqs |-> IF req[r].st = "pending" THEN [st |-> IF req[r].age + E.d > ReqLimit THEN "500" ELSE "pending", age |-> req[r].age + E.d] ELSE req[r]]
  /\ ReqsSeen
  /\ Observed([s \in Stream |-> Closure(Grow(st[s], E.d))])
\* other requests neither change the streams nor are changed by them
TReq == IsEvent("req") /\ Req(E.r, [st |-> "pending", age |-> 0]) /\ ReqsSeen /\ Observed(st)
TReply == IsEvent("reply") /\ req[E.r].st = "pending" /\ Req(E.r, [st |-> "200", age |-> 0]) /\ ReqsSeen /\ Observed(st)
TGet == IsEvent("get") /\ E.code = 200 /\ E.n = 1 /\ UNCHANGED req /\ ReqsSeen /\ Observed(st)
\* in the end the clients leave, and nothing of the streams remains
TEndRun == IsEvent("gone") /\ E.open = 0 /\ UNCHANGED <<st, req>>

TInit == WPInit /\ l = 1 /\ req = [r \in Reqs |-> [st |-> "none", age |-> 0]]
TNext == TReset \/ TAsk \/ TAccept \/ TRefuse \/ TFail \/ TSend \/ TEnd \/ TStall \/ TUnstall \/ TLeave \/ TAdvance \/ TReq \/ TReply \/ TGet \/ TEndRun
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
