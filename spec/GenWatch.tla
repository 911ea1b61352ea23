------------------------------ MODULE GenWatch ------------------------------
(* Scenarios for the real watcher: behaviours of CkubeWatch, printed by the *)
(* simulator when they reach the depth.  Time passing makes every waiting   *)
(* stream try again.                                                        *)
EXTENDS CkubeWatch, Json, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
WithStop == IOEnv.STOP = "yes"
GStream == {t \o "|" \o c : t \in {"pods", "nodes", "widgets", "deployments"}, c \in {"c1", "c2"}}
H(r) == hist' = Append(hist, r)
BreakKinds == {"eof", "cut", "reset", "garbage", "odd"}
RefuseKinds == {"403", "404", "401", "500", "503", "eof", "timeout", "reset", "refused"}
Advance(d) ==
  /\ phase' = [s \in Stream |-> IF phase[s] = "wait" THEN "connecting" ELSE phase[s]]
  /\ UNCHANGED <<truth, queue, cache, reported, kept, ver, faults>>
  /\ H([op |-> "advance", d |-> d])
\* Favour a few streams, so that histories on one stream get long.
Do(R, s, i, b, r, d) ==
  IF R <= 7 THEN IF R <= 5 \/ i \notin DOMAIN truth[s] THEN UpPut(s, i) /\ H([op |-> "put", s |-> s, i |-> i])
                 ELSE UpDel(s, i) /\ H([op |-> "del", s |-> s, i |-> i])
  ELSE IF R <= 24 /\ phase[s] = "connecting" THEN
         IF R <= 20 THEN Accept(s) /\ H([op |-> "accept", s |-> s])
         ELSE Refuse(s) /\ H([op |-> "refuse", s |-> s, kind |-> r])
  ELSE IF R <= 24 /\ Open(s) THEN
         IF R <= 20 /\ queue[s] # << >> THEN Deliver(s) /\ H([op |-> "deliver", s |-> s])
         ELSE IF R = 21 THEN UNCHANGED wvars /\ H([op |-> "errev", s |-> s])
         ELSE IF R > 21 THEN Break(s) /\ H([op |-> "break", s |-> s, kind |-> b])
         ELSE UpPut(s, i) /\ H([op |-> "put", s |-> s, i |-> i])
  ELSE IF R = 25 /\ WithStop /\ Len(hist) > Depth \div 3 /\ \E x \in Stream : phase[x] # "stopped" THEN Stop /\ H(IF Len(hist) % 3 = 0 THEN [op |-> "stop"] ELSE [op |-> "stoprace", s |-> s])
  ELSE Advance(d)
GenNext ==
  /\ Len(hist) < Depth
  /\ \E R \in {RandomElement(1..25)}, s \in {RandomElement(Stream)}, i \in {RandomElement(Id)}, b \in {RandomElement(BreakKinds)},
        r \in {RandomElement(RefuseKinds)}, d \in {RandomElement({1, 2, 4, 10, 20, 61, 700, 3000})}, f \in {RandomElement(1..3)} :
       Do(R, IF f > 1 THEN IOEnv.FOCUS ELSE s, i, b, r, d)
GenSpec == WInit /\ hist = << >> /\ [][GenNext]_<<wvars, hist>>
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
