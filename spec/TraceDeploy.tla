----------------------------- MODULE TraceDeploy -----------------------------
(* Are the recorded answers of the real endpoint those of CkubeDeploy? *)
EXTENDS CkubeDeploy, Json, IOUtils
VARIABLE l
vars == <<dvars, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
SetOfSeq(s) == {s[i] : i \in DOMAIN s}
TReset == IsEvent("reset") /\ deflt' = Trace[l].deflt /\ pods' = << >> /\ svcs' = << >>
TPutPod == IsEvent("putpod") /\ PutPod(Trace[l].k, Trace[l].labels, Trace[l].owners)
TDelPod == IsEvent("delpod") /\ DelPod(Trace[l].k)
TPutSvc == IsEvent("putsvc") /\ PutSvc(Trace[l].k, Trace[l].labels)
TDelSvc == IsEvent("delsvc") /\ DelSvc(Trace[l].k)
TAsk ==
  /\ IsEvent("ask")
  /\ LET e == Trace[l]
         S == Answer(e.c, e.ns, e.d)
     IN e.st = 200 /\ e.array /\ Len(e.got) = Cardinality(S) /\ SetOfSeq(e.got) = {<<s[1], s[2], s[3], svcs[s]>> : s \in S}
  /\ UNCHANGED dvars
TInit == deflt = "" /\ pods = << >> /\ svcs = << >> /\ l = 1
TNext == TReset \/ TPutPod \/ TDelPod \/ TPutSvc \/ TDelSvc \/ TAsk
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
