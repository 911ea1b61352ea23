----------------------------- MODULE GenGateway -----------------------------
(* The features of the requests to replay, every sensible combination of them. *)
EXTENDS Naturals, Sequences, Json, TLC
VARIABLE x
Methods == {"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "LOCK"}
Shapes == {"list", "nslist", "get", "nsget", "sub", "ulist", "uget", "wrongver", "watchpath", "root", "nsobj"}
Options == {"none", "limit", "timeoutSeconds", "timeout", "limits", "field", "rv", "rv0", "watch1", "watchtrue", "watchy", "watchfalse", "watchtwice",
            "continue", "pretty", "repeated", "foo", "empty", "manager", "limitfoo", "watchtimeout", "rand"}
Selectors == {"none", "plain", "embed", "embedplain", "bad", "gt", "badembed"}
Marks == {"none", "rv", "fm", "param", "embed", "body", "rv?", "fm?", "param?", "embed?", "body?"}
Sensible(m, s, o, l, k) ==
  /\ o \in {"rv", "rv0"} => k \notin {"rv", "rv?"}
  /\ o = "manager" => k \notin {"fm", "fm?"}
  /\ k \in {"body", "body?"} => m = "DELETE"
  /\ k \in {"embed", "embed?"} <=> l \in {"embed", "embedplain"}
  /\ l \in {"bad", "gt", "badembed"} => k \in {"none", "rv", "rv?"}
  /\ m # "GET" => o \notin {"watch1", "watchy", "watchfalse", "watchtwice", "watchtimeout", "continue"} /\ l \in {"none", "plain", "embedplain"}
  /\ o \notin {"none", "limit", "watchtrue", "field"} => l \in {"none", "plain", "embed"}
Init == \E m \in Methods, s \in Shapes, o \in Options, l \in Selectors, k \in Marks :
          /\ Sensible(m, s, o, l, k)
          /\ x = [m |-> m, s |-> s, o |-> o, l |-> l, k |-> k]
          /\ PrintT("@@" \o ToJson(x))
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
