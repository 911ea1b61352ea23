----------------------------- MODULE MCGateway -----------------------------
(***************************************************************************)
(* The way the gateway works through a request, step by step, checked      *)
(* against what CkubeGateway says has to become of it: for every request   *)
(* of the space below and every order in which the query options may be    *)
(* gone through (they are a map).                                          *)
(*                                                                         *)
(* A marker is <<"dsm-cluster-", c>> as the value of an option, the first  *)
(* component of a body, or the embedded query of a selector.               *)
(*                                                                         *)
(* Bound to the code: server (registerRoutes), api (Proxy,                 *)
(* parsePaginateAndLabelsAndClean, proxyPass, proxyPassWatch).             *)
(***************************************************************************)
EXTENDS CkubeGateway
CONSTANT Design
VARIABLES r, token, pc, opts, todo, cluster, body, sel, out, hit
gvars == <<r, token, pc, opts, todo, cluster, body, sel, out, hit>>

Cfg == [token |-> token, deflt |-> "c1", prefix |-> [c \in {"c1", "c2"} |-> "/" \o c], conf |-> [t \in {"pods"} |-> << >>]]
Reqs == <<[key |-> "a", op |-> "in", vals |-> <<"x">>]>>
Known1 == {"limit", "watch", "resourceVersion", "fieldManager"}
Val(k) == [limit |-> "5", watch |-> "1", resourceVersion |-> "7", fieldManager |-> "me"][k]
Plain(S) == [k \in S |-> <<Val(k)>>]
Marks == {[how |-> "none", c |-> ""]} \cup {[how |-> h, c |-> c] : h \in {"param", "fm", "rv", "body", "embed"}, c \in {"c1", "c2", "gone"}}
Shapes == {<<"healthy", "">>, <<"list", "pods">>, <<"list", "nodes">>, <<"get", "pods">>, <<"watchpath", "pods">>, <<"custom", "">>, <<"other", "">>}
Request(m, s, S, k, a, x) ==
   [m |-> m, shape |-> s[1], t |-> s[2], ns |-> "", n |-> "", path |-> "/p", opts |-> Plain(S), mark |-> k, auth |-> a,
    sel |-> [kind |-> IF k.how = "embed" THEN (IF x = "bad" THEN "badembed" ELSE "embed") ELSE x, raw |-> "raw", reqs |-> IF x = "plain" THEN Reqs ELSE << >>],
    plain |-> "b", body |-> (IF k.how = "body" THEN "dsm-cluster-" \o k.c \o "b" ELSE "b"), ct |-> "json"]
Sensible(q) ==
  /\ q.mark.how = "body" => q.m = "DELETE"
  /\ q.mark.how = "fm" => "fieldManager" \notin DOMAIN q.opts
  /\ q.mark.how = "rv" => "resourceVersion" \notin DOMAIN q.opts
  /\ q.sel.kind # "badembed"                       \* which cluster it names can not be told
  /\ q.shape \in {"healthy", "custom"} => q.m = "GET" /\ DOMAIN q.opts \subseteq {"limit"} /\ q.sel.kind = "none" /\ q.mark.how = "none"

\* ---- the steps
Wire(q) == q.opts @@ (CASE q.mark.how = "param" -> "cluster" :> <<q.mark.c>>
                        [] q.mark.how = "fm" -> "fieldManager" :> <<"dsm-cluster-", q.mark.c>>
                        [] q.mark.how = "rv" -> "resourceVersion" :> <<"dsm-cluster-", q.mark.c>>
                        [] OTHER -> << >>)
Marker(v) == Len(v) = 2 /\ v[1] = "dsm-cluster-"
NoHit == [c |-> "", m |-> "", p |-> "", q |-> << >>, rawsel |-> << >>, sel |-> << >>, b |-> << >>, ct |-> ""]
\* HEAD goes the way of the others: only GET is answered from the cache
GetLike == IF Design = "head" THEN {"GET", "HEAD"} ELSE {"GET"}

Init ==
  /\ \E m \in {"GET", "POST", "DELETE", "HEAD"}, s \in Shapes, S \in SUBSET Known1, k \in Marks, a \in {"good", "bad"}, x \in {"none", "plain", "bad"} :
       r = Request(m, s, S, k, a, x)
  /\ Sensible(r) /\ token \in {"", "T"}
  /\ pc = "auth" /\ opts = Wire(r) /\ todo = {} /\ cluster = "" /\ body = <<IF r.mark.how = "body" THEN r.mark.c ELSE "", r.plain>> /\ sel = r.sel /\ out = "" /\ hit = NoHit
Done(o) == pc' = "done" /\ out' = o
Auth ==
  /\ pc = "auth" /\ UNCHANGED <<r, token, opts, cluster, body, sel, hit>>
  /\ IF r.shape = "healthy" THEN Done("public") /\ UNCHANGED todo
     ELSE IF token # "" /\ r.auth # "good" /\ Design # "lateauth" THEN Done("unauthorized") /\ UNCHANGED todo
     ELSE IF r.shape = "custom" THEN Done("cache") /\ UNCHANGED todo
     ELSE pc' = "options" /\ todo' = DOMAIN opts /\ UNCHANGED out
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Options ==
  /\ pc = "options" /\ UNCHANGED <<r, token, sel, out, hit, body>>
  /\ IF todo = {} THEN pc' = "body" /\ UNCHANGED <<todo, opts, cluster>>
     ELSE \E k \in todo :
       /\ todo' = todo \ {k} /\ pc' = pc
       /\ IF k = "cluster" THEN cluster' = opts[k][1] /\ UNCHANGED opts
          ELSE IF k \in {"fieldManager", "resourceVersion"} /\ Marker(opts[k])
               THEN cluster' = opts[k][2] /\ opts' = IF Design = "keepmark" THEN opts ELSE Without(opts, k)
          ELSE IF Design = "lastoption" /\ k \in {"fieldManager", "resourceVersion"}
               THEN cluster' = "" /\ UNCHANGED opts      \* an option without marker takes it back
          ELSE UNCHANGED <<cluster, opts>>
Body ==
  /\ pc = "body" /\ pc' = "selector" /\ UNCHANGED <<r, token, todo, opts, sel, out, hit>>
  /\ IF r.m = "DELETE" /\ body[1] # "" THEN cluster' = body[1] /\ body' = <<"", body[2]>> ELSE UNCHANGED <<cluster, body>>
Selector ==
  /\ pc = "selector" /\ UNCHANGED <<r, token, todo, opts, body, out, hit>>
  /\ IF sel.kind = "bad" THEN pc' = "forward" /\ UNCHANGED <<cluster, sel>>
     ELSE /\ pc' = "decide"
          /\ cluster' = IF cluster = "" /\ sel.kind = "embed" /\ Design # "earlydefault" THEN r.mark.c ELSE cluster
          /\ sel' = [sel EXCEPT !.kind = IF sel.reqs = << >> THEN "none" ELSE "plain"]
Decide ==
  /\ pc = "decide" /\ UNCHANGED <<r, token, todo, opts, cluster, body, sel, hit>>
  /\ IF DOMAIN opts \subseteq (CacheOptions \cup (IF Design = "anyversion" THEN {"resourceVersion"} ELSE {}))
        /\ r.m \in GetLike /\ r.shape \in {"list", "get"} /\ r.t \in DOMAIN Cfg.conf
     THEN Done("cache") ELSE pc' = "forward" /\ UNCHANGED out
Cl == IF cluster = "" THEN "c1" ELSE cluster
Forward ==
  /\ pc = "forward" /\ UNCHANGED <<r, token, todo, opts, cluster, body, sel>>
  /\ IF token # "" /\ r.auth # "good" THEN Done("unauthorized") /\ UNCHANGED hit
     ELSE IF Cl \notin DOMAIN Cfg.prefix
          THEN IF Design = "fallback" THEN Done("forward") /\ hit' = [NoHit EXCEPT !.c = "c1"] ELSE Done("notfound") /\ UNCHANGED hit
     ELSE /\ Done("forward")
          /\ hit' = [c |-> Cl, m |-> r.m, p |-> Cfg.prefix[Cl] \o r.path, b |-> (IF body[1] = "" THEN body[2] ELSE "dsm-cluster-" \o body[1] \o body[2]), ct |-> r.ct,
                     q |-> IF "watch" \in DOMAIN opts \/ r.shape = "watchpath" THEN ("timeout" :> <<"30m">>) @@ opts ELSE opts,
                     rawsel |-> CASE sel.kind = "none" -> << >> [] OTHER -> <<"raw">>,
                     sel |-> IF sel.kind = "plain" THEN <<<<"a", "in", <<"x">>>>>> ELSE << >>]
Next == Auth \/ Options \/ Body \/ Selector \/ Decide \/ Forward
Spec == Init /\ [][Next]_gvars

\* ---- what has to hold
AsPromised == pc = "done" => out = Outcome(Cfg, r)
Intact == pc = "done" /\ out = "forward" => Arrives(Cfg, r, hit)
\* nothing leaves, and nothing of the cache is shown, without the token
Guarded == pc = "done" /\ token # "" /\ r.auth # "good" => out \in {"public", "unauthorized"}
\* never another cluster than the one addressed
RightCluster == pc = "done" /\ out = "forward" => hit.c = ClusterOf(Cfg, r)
=============================================================================
