--------------------------- MODULE CkubeWatchProxy ---------------------------
(***************************************************************************)
(* Forwarded watches (api/proxy.go proxyPassWatch, doRequest; the server's  *)
(* flushing writer and its timeouts).  Every client S has at most one       *)
(* stream.  An upstream stream is a sequence of atoms: texts and newlines,  *)
(* arriving in arbitrary chunks; a line is what ends in a newline.          *)
(*                                                                         *)
(* Step(x) is one step of the proxy for one stream; it depends on that      *)
(* stream only.  The environment is the rest: clients that ask, stop        *)
(* reading, go on or leave, API servers that accept, refuse, send, end or   *)
(* break, other requests, and time.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Stream, Text, Limit, ReqLimit, Design
NL == "nl"

\* pc: what the proxy does for the stream
\* up: "none", "asked", "open", "ended", "broken", "refused", "failed"
\* cl: "none", "waiting", "streaming", "over", "left"
NoStream == [pc |-> "none", up |-> "none", rel |-> FALSE, sent |-> << >>, read |-> 0, got |-> << >>,
             cl |-> "none", status |-> 0, stalled |-> FALSE, age |-> 0]

Min(a, b) == IF a < b THEN a ELSE b
\* the part of the sequence q after its last newline
RECURSIVE Tail1(_)
Tail1(q) == IF q = << >> \/ q[Len(q)] = NL THEN 0 ELSE 1 + Tail1(SubSeq(q, 1, Len(q) - 1))

Buffered(x) == SubSeq(x.sent, Len(x.got) + 1, x.read)
Late(x) == x.age > (IF Design = "short" THEN ReqLimit ELSE Limit)
Leave(x) == [x EXCEPT !.pc = "done", !.rel = TRUE, !.cl = IF @ = "left" THEN "left" ELSE "over"]
Line(x) == LET b == Buffered(x) IN b # << >> /\ b[Len(b)] = NL   \* a complete line is to be written
Enough(x) == Design # "hold" \/ Cardinality({i \in Len(x.got) + 1 .. x.read : x.sent[i] = NL}) = 2
CanStep(x) ==
  \/ x.pc = "wait" /\ (x.up \in {"open", "ended", "broken", "refused", "failed"} \/ x.cl = "left" \/ Late(x))
  \/ x.pc = "copy" /\ \/ x.cl = "left" \/ Late(x)
                      \/ Line(x) /\ Enough(x) /\ ~x.stalled
                      \/ ~(Line(x) /\ Enough(x)) /\ x.read < Len(x.sent)
                      \/ ~(Line(x) /\ Enough(x)) /\ x.read = Len(x.sent) /\ x.up \in {"ended", "broken"}
                         /\ ~(x.stalled /\ Buffered(x) # << >>)
Flush(x) == [x EXCEPT !.got = SubSeq(x.sent, 1, x.read)]
Step(x) ==
  CASE x.pc = "wait" /\ (x.cl = "left" \/ Late(x)) -> IF Design = "norelease" THEN [x EXCEPT !.pc = "done"] ELSE Leave(x)
    [] x.pc = "wait" /\ x.up \in {"open", "ended", "broken"} -> [x EXCEPT !.pc = "copy", !.cl = "streaming", !.status = 200]
    [] x.pc = "wait" /\ x.up \in {"refused", "failed"} -> [Leave(x) EXCEPT !.status = IF x.up = "refused" THEN x.status ELSE 500]
    [] x.pc = "copy" /\ (x.cl = "left" \/ Late(x)) -> IF Design = "norelease" THEN [x EXCEPT !.pc = "done"] ELSE Leave(x)
    [] x.pc = "copy" /\ Line(x) /\ Enough(x) -> IF x.stalled THEN x ELSE Flush(x)
    [] x.pc = "copy" /\ x.read < Len(x.sent) -> [x EXCEPT !.read = @ + 1]
    [] x.pc = "copy" /\ x.up \in {"ended", "broken"} ->
         IF x.stalled /\ Buffered(x) # << >> THEN x ELSE Leave(IF Design = "tail" THEN x ELSE Flush(x))
    [] OTHER -> x

----------------------------------------------------------------------------
(* What the environment does to a stream.                                  *)
Ask(x) == [NoStream EXCEPT !.pc = "wait", !.up = "asked", !.cl = "waiting"]
Accept(x) == [x EXCEPT !.up = "open"]
Refuse(x, code) == [x EXCEPT !.up = "refused", !.status = code]
Fail(x) == [x EXCEPT !.up = "failed"]
Send(x, q) == [x EXCEPT !.sent = @ \o q]
EndUp(x, how) == [x EXCEPT !.up = how]
Stall(x) == [x EXCEPT !.stalled = TRUE]
Unstall(x) == [x EXCEPT !.stalled = FALSE]
LeaveCl(x) == [x EXCEPT !.cl = "left"]
Grow(x, d) == IF x.pc \in {"wait", "copy"} THEN [x EXCEPT !.age = @ + d] ELSE x

VARIABLES st, n
wpvars == <<st, n>>
WPInit == st = [s \in Stream |-> NoStream] /\ n = 0
Do(s, y) == st' = [st EXCEPT ![s] = y]
Alive(x) == x.up = "open" /\ x.pc \in {"wait", "copy"} /\ x.cl # "left"
Env ==
  /\ n > 0 /\ n' = n - 1
  /\ \E s \in Stream : LET x == st[s] IN
     \/ x.pc = "none" /\ Do(s, Ask(x))
     \/ x.up = "asked" /\ x.pc = "wait" /\ (Do(s, Accept(x)) \/ Do(s, Refuse(x, 403)) \/ Do(s, Fail(x)))
     \/ Alive(x) /\ (\E a \in Text \cup {NL} : Do(s, Send(x, <<a>>)) \/ Do(s, Send(x, <<a, NL>>)))
     \/ Alive(x) /\ (\E h \in {"ended", "broken"} : Do(s, EndUp(x, h)))
     \/ x.cl = "streaming" /\ Do(s, IF x.stalled THEN Unstall(x) ELSE Stall(x))
     \/ x.cl \in {"waiting", "streaming"} /\ Do(s, LeaveCl(x))
Time == /\ n > 0 /\ n' = n - 1
        /\ st' = [s \in Stream |-> Grow(st[s], 1)]
Proxy == \E s \in Stream : CanStep(st[s]) /\ Do(s, Step(st[s])) /\ UNCHANGED n
WPNext == Env \/ Time \/ Proxy
WPSpec == WPInit /\ [][WPNext]_wpvars /\ WF_wpvars(Proxy)

----------------------------------------------------------------------------
(* The properties.                                                         *)
IsPrefix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
Faithful == \A s \in Stream : IsPrefix(st[s].got, st[s].sent)
\* What is complete when the proxy has nothing left to do has been delivered.
Prompt == \A s \in Stream : LET x == st[s] IN
  ~CanStep(x) =>
    /\ x.pc = "copy" /\ ~x.stalled => Len(x.got) = Len(x.sent) - Tail1(x.sent)
    /\ x.up \in {"open", "ended", "broken"} /\ x.cl \in {"waiting", "streaming"} => x.cl = "streaming" /\ x.status = 200
    /\ x.cl = "over" /\ x.up \in {"ended", "broken"} /\ x.age <= Limit => x.got = x.sent
\* An upstream stream is open exactly as long as there is a client for it, up to the limit.
Released == \A s \in Stream : LET x == st[s] IN
  ~CanStep(x) /\ x.cl \in {"left", "over"} => x.rel
LongLived == \A s \in Stream : LET x == st[s] IN
  x.cl = "over" => x.up \in {"ended", "broken", "refused", "failed"} \/ x.age > Limit
Independent == [][\A s, t \in Stream : s # t /\ st'[s] # st[s] /\ st'[t] # st[t] => \A u \in Stream : st'[u] = Grow(st[u], 1)]_wpvars
Settles == <>[](\A s \in Stream : ~CanStep(st[s]))

\* What the proxy makes of a stream before anything else happens.
RECURSIVE Closure(_)
Closure(x) == IF CanStep(x) THEN Closure(Step(x)) ELSE x
=============================================================================
