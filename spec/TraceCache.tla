----------------------------- MODULE TraceCache -----------------------------
(* Is a recorded run of the real store a behaviour of CkubeCache?  Every    *)
(* line is one notification together with everything readable afterwards.  *)
EXTENDS CkubeCache, Json, IOUtils

VARIABLE l
tvars == <<cache, gauge, hist, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE          \* "content" (C01) or "gauge" (C16)
TSpaces(t) == {}

SetOf(seq) == {seq[i] : i \in DOMAIN seq}
Distinct(seq) == Cardinality(SetOf(seq)) = Len(seq)
ItemsOf(f) == {<<k[1], k[2], k[3], k[4], f[k].v, f[k].lab>> : k \in DOMAIN f}
NonZero(g) == {<<x[1], x[2], x[3], g[x]>> : x \in {y \in DOMAIN g : g[y] # 0}}

\* What can be read agrees with the specified state after the step.
ObservedContent(e) ==
  /\ Distinct(e.list) /\ SetOf(e.list) = ItemsOf(cache')
  /\ Distinct(e.get) /\ SetOf(e.get) = ItemsOf(cache')
  /\ \A i \in DOMAIN e.find :
       /\ Distinct(e.find[i].items)
       /\ SetOf(e.find[i].items) = {<<k[1], k[2], k[3], k[4]>> : k \in {x \in DOMAIN cache' : cache'[x].lab = e.find[i].lab}}
ObservedGauge(e) == Distinct(e.gauge) /\ SetOf(e.gauge) = NonZero(gauge')
Observed(e) == IF Mode = "gauge" THEN ObservedGauge(e) ELSE ObservedContent(e)

IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
TReset == IsEvent("reset") /\ cache' = << >> /\ gauge' = << >> /\ UNCHANGED hist
TOp == /\ IsEvent("op")
       /\ LET e == Trace[l] IN
          /\ Step(e.o)
          /\ Observed(e)
       /\ UNCHANGED hist
TInit == CInit /\ hist = << >> /\ l = 1
TNext == TReset \/ TOp
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
