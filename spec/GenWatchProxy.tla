--------------------------- MODULE GenWatchProxy ---------------------------
(* Scenarios for the real proxy: behaviours of CkubeWatchProxy in which the *)
(* proxy takes all its steps before the environment takes the next one,     *)
(* with other requests in between.                                          *)
EXTENDS CkubeWatchProxy, Json, IOUtils
VARIABLES hist, req, k
gvars == <<st, n, hist, req, k>>
GStream == {"s1", "s2", "s3"}
Reqs == {"r1", "r2"}
Depth == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
OneOf(s) == s[RandomElement(1..Len(s))]
H(r) == hist' = Append(hist, r)
SameReq == UNCHANGED req
Set(s, x) == st' = [st EXCEPT ![s] = Closure(x)] /\ SameReq
\* a chunk: texts, long texts and newlines; every text is a new one
Chunk(s, len) == [i \in 1..len |-> LET b == R(1..20) IN IF b <= 8 THEN NL ELSE (IF b = 9 THEN "L" ELSE "T") \o s \o "." \o ToString(k + i)]
Open(x) == x.pc = "copy" /\ x.up = "open" /\ x.cl = "streaming"
Safe(d) == /\ \A s \in Stream : st[s].pc \in {"wait", "copy"} => st[s].age + d # Limit
           /\ \A r \in Reqs : req[r].st = "pending" => req[r].age + d # ReqLimit
Advance(d0) ==
  LET d == CHOOSE d \in d0 .. d0 + 9 : Safe(d) /\ \A e \in d0 .. d - 1 : ~Safe(e) IN
  /\ st' = [s \in Stream |-> Closure(Grow(st[s], d))]
  /\ req' = [r \in Reqs |-> IF req[r].st = "pending" THEN (IF req[r].age + d > ReqLimit THEN [st |-> "none", age |-> 0] ELSE [req[r] EXCEPT !.age = @ + d]) ELSE req[r]]
  /\ H([op |-> "advance", d |-> d]) /\ UNCHANGED k
OnStream(s, c, len, joint) ==
  LET x == st[s] IN
  CASE x.pc = "none" \/ (x.cl \in {"over", "left"} /\ ~x.stalled) ->
            Set(s, Ask(x)) /\ H([op |-> "ask", s |-> s, cluster |-> OneOf(<<"c1", "c1", "c2">>), form |-> R({"true", "1", "path", "t", "", "1&watch=true"})]) /\ UNCHANGED k
       [] x.pc = "wait" ->
            /\ UNCHANGED k
            /\ IF c <= 15 THEN Set(s, Accept(x)) /\ H([op |-> "accept", s |-> s])
               ELSE IF c = 16 THEN LET code == R({400, 403, 404, 410, 500, 503}) IN Set(s, Refuse(x, code)) /\ H([op |-> "refuse", s |-> s, code |-> code])
               ELSE IF c = 17 THEN Set(s, Fail(x)) /\ H([op |-> "fail", s |-> s])
               ELSE IF c = 18 THEN Set(s, LeaveCl(x)) /\ H([op |-> "leave", s |-> s])
               ELSE Set(s, x) /\ H([op |-> "get"])
       [] Open(x) /\ c <= 13 ->
            LET q == Chunk(s, len) IN
            /\ k' = k + len
            /\ Set(s, Send(x, q)) /\ H([op |-> "send", s |-> s, q |-> q])
       [] Open(x) /\ c = 14 -> LET q == Chunk(s, len)  how == R({"ended", "broken"}) IN
            /\ k' = k + len
            /\ IF joint THEN Set(s, EndUp(Send(x, q), how)) /\ H([op |-> "end", s |-> s, q |-> q, how |-> how])
               ELSE Set(s, EndUp(x, how)) /\ H([op |-> "end", s |-> s, q |-> << >>, how |-> how])
       [] x.cl = "streaming" /\ ~x.stalled /\ c = 15 -> Set(s, Stall(x)) /\ H([op |-> "stall", s |-> s]) /\ UNCHANGED k
       [] x.stalled /\ x.cl # "left" /\ c \in {16, 17, 18} -> Set(s, Unstall(x)) /\ H([op |-> "unstall", s |-> s]) /\ UNCHANGED k
       [] x.cl = "streaming" /\ c = 19 -> Set(s, LeaveCl([x EXCEPT !.stalled = FALSE])) /\ H([op |-> "leave", s |-> s]) /\ UNCHANGED k
       [] OTHER -> Advance(1)
OnReq(r, c) ==
  IF req[r].st = "none" THEN UNCHANGED <<st, k>> /\ req' = [req EXCEPT ![r] = [st |-> "pending", age |-> 0]] /\ H([op |-> "req", r |-> r, cluster |-> R({"c1", "c2"}), method |-> R({"GET", "POST"})])
     ELSE IF c <= 8 THEN UNCHANGED <<st, k>> /\ req' = [req EXCEPT ![r] = [st |-> "none", age |-> 0]] /\ H([op |-> "reply", r |-> r])
     ELSE Advance(7)
GNext ==
  /\ Len(hist) < Depth
  /\ UNCHANGED n
  /\ \E kind \in {R(1..20)}, s \in {R(Stream)}, r \in {R(Reqs)}, c \in {R(1..19)}, len \in {R(1..5)}, joint \in {R(BOOLEAN)},
        d \in {OneOf(<<1, 1, 5, 29, 31, 61, 61, 299, 601, 1100, 1799, 1801>>)} :
       IF kind <= 15 THEN OnStream(s, c, len, joint)
       ELSE IF kind <= 17 THEN OnReq(r, c)
       ELSE IF kind = 18 THEN SameReq /\ UNCHANGED <<st, k>> /\ H([op |-> "get"])
       ELSE Advance(d)
GenSpec == WPInit /\ hist = << >> /\ req = [r \in Reqs |-> [st |-> "none", age |-> 0]] /\ k = 0 /\ [][GNext]_gvars
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
