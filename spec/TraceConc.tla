------------------------------ MODULE TraceConc ------------------------------
(* Is every recorded read of the real store, taken while updates were going   *)
(* on, one that CkubeConc allows?  The instants are the numbers t of a shared *)
(* counter, taken before each call and after its return.                      *)
EXTENDS CkubeConc, Json, IOUtils, TLC
VARIABLES l, sc,     \* the scenario: srcs, nss, names (sorted), single
          poss, seen, open, last
vars == <<l, sc, poss, seen, open, last>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
SetOfSeq(s) == {s[i] : i \in DOMAIN s}
e == Trace[l]
Names == SetOfSeq(sc.names)
Empty(names) == [n \in names |-> 0]

TReset == IsEvent("reset")
  /\ LET N == SetOfSeq(e.names)
         NSU == {<<s, ns>> : s \in SetOfSeq(e.srcs), ns \in SetOfSeq(e.nss)}
     IN /\ sc' = [nss |-> e.nss, names |-> e.names, single |-> e.single]
        /\ poss' = IF e.single THEN Init0(NSU, Empty(N), "") ELSE Init0({<<u[1], u[2], n>> : u \in NSU, n \in N}, 0, "")
        /\ last' = [u \in NSU |-> Empty(N)]
  /\ seen' = << >> /\ open' = << >>

\* the units an update changes, and their new values
New(s, op, ns, n, v) ==
  LET val == IF op = "set" THEN v ELSE 0 IN
  IF sc.single
  THEN [u \in {<<s, x>> : x \in (IF op = "clear" THEN SetOfSeq(sc.nss) ELSE {ns})} |->
          IF op = "clear" THEN Empty(Names) ELSE [last[u] EXCEPT ![n] = val]]
  ELSE [u \in (IF op = "clear" THEN {u \in DOMAIN poss : u[1] = s} ELSE {<<s, ns, n>>}) |-> val]

TWBegin == IsEvent("wb")
  /\ LET new == New(e.s, e.op, e.ns, e.n, e.v) IN
     /\ poss' = PossBegin(poss, e.w, new)
     /\ seen' = SeenBegin(seen, new)
     /\ last' = IF sc.single THEN [u \in DOMAIN last |-> IF u \in DOMAIN new THEN new[u] ELSE last[u]] ELSE last
  /\ open' = (e.w :> e.t) @@ open
  /\ UNCHANGED sc
TWEnd == IsEvent("we")
  /\ e.w \in DOMAIN open
  /\ poss' = PossEnd(poss, e.w, open[e.w], e.t)
  /\ open' = [w \in DOMAIN open \ {e.w} |-> open[w]]
  /\ UNCHANGED <<sc, seen, last>>

TRBegin == IsEvent("rb") /\ seen' = (e.r :> SeenNow(poss)) @@ seen /\ UNCHANGED <<sc, poss, open, last>>

\* ---- what was returned
RECURSIVE Pick(_, _, _)
Pick(names, val, i) ==   \* the objects of one namespace in the order of their names
  IF i > Len(names) THEN <<>>
  ELSE (IF val[names[i]] = 0 THEN <<>> ELSE <<<<names[i], val[names[i]]>>>>) \o Pick(names, val, i + 1)
Of(items, s, ns) ==
  LET mine == SelectSeq(items, LAMBDA x : x[1] = s /\ x[2] = ns) IN [i \in 1..Len(mine) |-> <<mine[i][3], mine[i][4]>>]
InScope(x) == x[1] \in SetOfSeq(e.srcs) /\ x[2] \in SetOfSeq(e.nss)
Slice(q, a, b) == SubSeq(q, a + 1, b)
Min(a, b) == IF a < b THEN a ELSE b
FullList ==
  /\ e.st = 200 /\ e.remain = 0
  /\ \A i \in DOMAIN e.items : InScope(e.items[i])
  /\ \A s \in SetOfSeq(e.srcs), ns \in SetOfSeq(e.nss) :
       LET got == Of(e.items, s, ns) IN
       IF sc.single THEN \E val \in seen[e.r][<<s, ns>>] : got = Pick(sc.names, val, 1)
       ELSE \A n \in Names : LET vs == SelectSeq(got, LAMBDA x : x[1] = n) IN
              CASE Len(vs) = 0 -> 0 \in seen[e.r][<<s, ns, n>>]
                [] Len(vs) = 1 -> vs[1][2] # 0 /\ vs[1][2] \in seen[e.r][<<s, ns, n>>]
                [] OTHER -> FALSE
\* a page of one namespace: a page of that namespace as it was at one instant
PageList ==
  LET s == e.srcs[1]
      ns == e.nss[1]
  IN \E val \in seen[e.r][<<s, ns>>] :
       LET all == Pick(sc.names, val, 1)
           a == Min((e.page - 1) * e.size, Len(all))
           b == Min(a + e.size, Len(all))
       IN IF e.page > 1 /\ (e.page - 1) * e.size >= Len(all) THEN e.st = 400
          ELSE /\ e.st = 200 /\ e.remain = Len(all) - b
               /\ (\A i \in DOMAIN e.items : InScope(e.items[i])) /\ Of(e.items, s, ns) = Slice(all, a, b)
One ==
  LET u == <<e.srcs[1], e.nss[1]>>
      ok == IF sc.single THEN {val[e.n] : val \in seen[e.r][u]} ELSE seen[e.r][<<u[1], u[2], e.n>>]
  IN CASE e.st = 404 -> 0 \in ok
       [] e.st = 200 -> e.items[1] = <<u[1], u[2], e.n, e.items[1][4]>> /\ e.items[1][4] # 0 /\ e.items[1][4] \in ok
       [] OTHER -> FALSE
Allowed == CASE e.kind \in {"list", "table"} -> FullList
             [] e.kind = "page" -> PageList
             [] e.kind = "get" -> One
TREnd == IsEvent("re")
  /\ e.r \in DOMAIN seen
  /\ Allowed
  /\ seen' = [r \in DOMAIN seen \ {e.r} |-> seen[r]]
  /\ UNCHANGED <<sc, poss, open, last>>
\* everything that was started has ended
TEnd == IsEvent("end") /\ DOMAIN seen = {} /\ DOMAIN open = {} /\ UNCHANGED <<sc, poss, seen, open, last>>

TInit == l = 1 /\ sc = << >> /\ poss = << >> /\ seen = << >> /\ open = << >> /\ last = << >>
TNext == TReset \/ TWBegin \/ TWEnd \/ TRBegin \/ TREnd \/ TEnd
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
