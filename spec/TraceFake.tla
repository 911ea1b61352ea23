------------------------------ MODULE TraceFake ------------------------------
(* Did the real fake server answer and tell what CkubeFake demands? *)
EXTENDS CkubeFake, Json, IOUtils
VARIABLE l
vars == <<fvars, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
TReset == IsEvent("reset") /\ deflt' = E.deflt /\ reader' = E.reader /\ obj' = << >> /\ watches' = << >> /\ events' = << >>
K == <<E.t, Cluster(E.c), E.ns, E.n>>
Ok == E.st \in 200..299
Bad == E.st \in 400..499 /\ Fail
TCreate == IsEvent("create") /\ IF CanCreate(K) THEN Ok /\ Create(K, E.v) ELSE Bad
TUpdate == IsEvent("update") /\ IF CanChange(K) THEN Ok /\ Update(K, E.v) ELSE Bad
\* an update whose body names another object than its path
TMismatch == IsEvent("mismatch") /\ Bad
TDelete == IsEvent("delete") /\ IF CanChange(K) THEN Ok /\ Delete(K) ELSE Bad
TGet == /\ IsEvent("get")
        /\ IF K \in DOMAIN obj THEN Ok /\ E.got = <<<<K[2], K[3], K[4], obj[K]>>>> ELSE E.st = 404 /\ E.got = << >>
        /\ UNCHANGED fvars
TList == /\ IsEvent("list")
         /\ LET S == Listing(E.t, E.ns, E.cs) IN
            Ok /\ Len(E.got) = Cardinality(S) /\ SetOf(E.got) = {<<k[2], k[3], k[4], obj[k]>> : k \in S}
         /\ UNCHANGED fvars
TClean == IsEvent("clean") /\ Reset
TOpen == IsEvent("open") /\ E.st = 200 /\ Open(E.id, E.t, E.ns, E.cs)
\* log: everything the watch was told until it was closed, in order
TClose == IsEvent("close") /\ E.log = watches[E.id].log /\ Close(E.id)
\* held: requests the server still works on after the last watch was closed. A watch ends with its client: one
\* that stays takes the place of a later watch from the same address when its time is up.
TEnd == IsEvent("end") /\ E.held = 0 /\ E.events = events /\ UNCHANGED fvars
TInit == deflt = "" /\ reader = FALSE /\ obj = << >> /\ watches = << >> /\ events = << >> /\ l = 1
TNext == TReset \/ TCreate \/ TUpdate \/ TMismatch \/ TDelete \/ TGet \/ TList \/ TClean \/ TOpen \/ TClose \/ TEnd
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
