----------------------------- MODULE TracePlugin -----------------------------
(* Did the real wrapper run what CkubePlugin demands? *)
EXTENDS CkubePlugin, Json, IOUtils
VARIABLES cfg, objs, l
vars == <<cfg, objs, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
TReset == IsEvent("reset") /\ cfg' = Trace[l].cfg /\ objs' = SetOfSeq(Trace[l].objs)
IdOf(o) == <<o.c, o.ns, o.n, o.v>>
TLine ==
  /\ IsEvent("line")
  /\ LET e == Trace[l]
         ts == e.toks
         ch == Chosen(ts)
     IN IF Refused(ts) THEN e.runs = 0 /\ e.exit # 0
        ELSE /\ e.runs = 1 /\ e.exit = e.kexit /\ e.io
             /\ IF ch = << >> THEN e.got = Join(Theirs(ts)) \o e.rest
                ELSE IF Command(ts) = "create" THEN Creates(e.got, ts, e.rest)
                ELSE Reads(e.got, ts, e.rest, e.sels, {IdOf(o) : o \in Selected(Query(ts), cfg.deflt, cfg.conf["pods"], objs)})
  /\ UNCHANGED <<cfg, objs>>
TInit == cfg = << >> /\ objs = {} /\ l = 1
TNext == TReset \/ TLine
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
