---------------------------- MODULE CkubeGateway ----------------------------
(***************************************************************************)
(* How the gateway treats a request: refused for authorization, answered   *)
(* from the cache, forwarded to one upstream, or 'not found'.              *)
(*                                                                         *)
(* A request is given by its method, its shape (list, get, watchpath,      *)
(* healthy, metrics, custom or other), the type, namespace and name its    *)
(* path names, its query options, its label selector, the way it addresses *)
(* a cluster, whether it presents the token, and its body.                 *)
(*                                                                         *)
(* Bound to the code: server (registerRoutes, routeHandles), api (Proxy,   *)
(* parsePaginateAndLabelsAndClean, proxyPass, proxyPassWatch, doRequest).  *)
(***************************************************************************)
EXTENDS CkubeQuery

\* ---- authorization ---------------------------------------------------------
Public(r) == r.m = "GET" /\ r.shape \in {"healthy", "metrics"}
Unauthorized(cfg, r) == cfg.token # "" /\ ~Public(r) /\ r.auth # "good"

\* ---- cache or forward --------------------------------------------------------
CacheOptions == {"limit", "timeoutSeconds", "timeout"}
Evaluable(r) == r.sel.kind \in {"none", "plain", "embed"}
FromCache(cfg, r) ==
  \/ r.m = "GET" /\ r.shape = "custom"
  \/ /\ r.m = "GET"
     /\ r.shape \in {"list", "get"} /\ r.t \in DOMAIN cfg.conf
     /\ DOMAIN r.opts \subseteq CacheOptions /\ r.mark.how # "param"
     /\ Evaluable(r)

\* ---- the cluster a request addresses -------------------------------------------
ClusterOf(cfg, r) == IF r.mark.how = "none" THEN cfg.deflt ELSE r.mark.c
Known(cfg, r) == ClusterOf(cfg, r) \in DOMAIN cfg.prefix

Outcome(cfg, r) ==
  IF Public(r) THEN "public"
  ELSE IF Unauthorized(cfg, r) THEN "unauthorized"
  ELSE IF FromCache(cfg, r) THEN "cache"
  ELSE IF Known(cfg, r) THEN "forward" ELSE "notfound"

\* ---- what the upstream has to see ----------------------------------------------
IsWatch(r) == r.shape = "watchpath" \/ ("watch" \in DOMAIN r.opts /\ r.opts["watch"][1] \notin {"0", "false", "False", "FALSE"})
WithLimit(r, o) == IF IsWatch(r) THEN ("timeout" :> <<"30m">>) @@ o ELSE o
\* Only a GET can be a watch: the limit is optional on other methods.
ForwardedOptions(r) ==
  {WithLimit(r, r.opts)} \cup
  (IF r.m = "GET" THEN {} ELSE {r.opts}) \cup  (IF r.mark.how = "param" THEN {WithLimit(r, ("cluster" :> <<r.mark.c>>) @@ r.opts)} ELSE {})
ReqSet(reqs) == {<<reqs[i].key,
                   CASE reqs[i].op \in {"in", "eq"} -> "in" [] reqs[i].op \in {"notin", "ne"} -> "notin"
                     [] reqs[i].op = "ex" -> "exists" [] OTHER -> "!",
                   SetOfSeq(reqs[i].vals)>> : i \in DOMAIN reqs}
\* h.sel: the label selectors that arrived, parsed (or raw where they can not be).
ForwardedSelector(r, h) ==
  CASE r.sel.kind = "badembed" -> TRUE
    [] r.sel.kind = "bad" -> h.rawsel = <<r.sel.raw>> \/ (r.sel.raw = "<none>" /\ IsWatch(r) /\ h.rawsel = << >>) \* what some clients write for no selector
    [] r.sel.kind = "none" \/ r.sel.reqs = << >> -> h.rawsel = << >>
    [] OTHER -> Len(h.rawsel) = 1 /\ {<<x[1], x[2], SetOfSeq(x[3])>> : x \in SetOfSeq(h.sel)} = ReqSet(r.sel.reqs)
ForwardedBody(r, h) == h.b = (IF r.mark.how = "body" THEN r.plain ELSE r.body)
Arrives(cfg, r, h) ==
  /\ h.c = ClusterOf(cfg, r)
  /\ h.m = r.m
  /\ h.p = cfg.prefix[h.c] \o r.path
  /\ h.q \in ForwardedOptions(r)
  /\ ForwardedSelector(r, h)
  /\ ForwardedBody(r, h)
  /\ r.body # "" => h.ct = r.ct

\* ---- what a cached answer holds -------------------------------------------------
CachedQuery(cfg, r) ==
  [ns |-> r.ns, calls |-> IF r.mark.how = "embed" THEN <<[h |-> "cl", v |-> <<r.mark.c>>]>> ELSE << >>,
   parts |-> << >>, mark |-> IF r.mark.how = "none" THEN "" ELSE r.mark.c, sel |-> r.sel.reqs]
CachedItems(cfg, objs, r) == Selected(CachedQuery(cfg, r), cfg.deflt, cfg.conf[r.t], objs[r.t])
CachedItem(cfg, objs, r) == {o \in objs[r.t] : o.c = ClusterOf(cfg, r) /\ o.ns = r.ns /\ o.n = r.n}
=============================================================================
