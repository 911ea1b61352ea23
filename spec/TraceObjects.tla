---------------------------- MODULE TraceObjects ----------------------------
EXTENDS CkubeObjects, Json, IOUtils
VARIABLE l
vars == <<ovars, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
e == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
SetOfSeq(s) == {s[i] : i \in DOMAIN s}
TReset == IsEvent("reset") /\ conf' = e.conf /\ deflt' = e.deflt /\ cache' = << >>
\* a change reported by the watch, after which everything has come to rest
TPut == IsEvent("put") /\ Put(e.k, SetOfSeq(e.o))
TDel == IsEvent("del") /\ Del(e.k)
TGet == IsEvent("get") /\ UNCHANGED ovars
  /\ IF e.k \in DOMAIN cache THEN e.st = 200 /\ ServedAs(e.k, SetOfSeq(e.o), e.idx) ELSE e.st = 404
\* all objects of a type in a cluster (and namespace, if one is named), each once
Mine(t, c, ns) == {k \in DOMAIN cache : k[1] = t /\ k[2] = c /\ (ns = "" \/ k[3] = ns)}
TList == IsEvent("list") /\ UNCHANGED ovars
  /\ e.st = 200 /\ e.kind = conf[e.t].listkind /\ e.apiv = conf[e.t].apiv
  /\ SetOfSeq(e.keys) = Mine(e.t, e.c, e.ns) /\ Len(e.keys) = Cardinality(SetOfSeq(e.keys))
  /\ \A i \in DOMAIN e.keys : ServedAs(e.keys[i], SetOfSeq(e.os[i]), e.idxs[i])
\* the objects whose index has exactly this value
TSearch == IsEvent("search") /\ UNCHANGED ovars
  /\ e.st = 200
  /\ SetOfSeq(e.keys) = {k \in Mine(e.t, deflt, "") : Searched(e.t, k, cache[k])[e.key] = e.val}
  /\ Len(e.keys) = Cardinality(SetOfSeq(e.keys))
TInit == l = 1 /\ conf = << >> /\ deflt = "" /\ cache = << >>
TNext == TReset \/ TPut \/ TDel \/ TGet \/ TList \/ TSearch
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
