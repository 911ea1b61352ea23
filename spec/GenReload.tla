------------------------------ MODULE GenReload ------------------------------
(* Histories of good and bad writes to both files by every method, with what *)
(* is to be served after each step, so that the driver knows what to wait    *)
(* for; the judgement is TraceReload's.                                      *)
EXTENDS CkubeServe, Json, IOUtils
VARIABLES disk, poss, seen, link, steps, ops, init
gvars == <<disk, poss, seen, link, steps, ops, init>>
Depth == atoi(IOEnv.DEPTH)

R(S) == RandomElement(S)
OneOf(s) == s[RandomElement(1..Len(s))]
\* a subset, as a sequence, of n elements of the sequence s chosen by the bits b
Pick(s, b) == LET f[i \in 0..Len(s)] == IF i = 0 THEN << >> ELSE IF b[i] THEN Append(f[i-1], s[i]) ELSE f[i-1] IN f[Len(s)]
GoodCfg(b, x, tk) == [ok |-> TRUE, bad |-> "", token |-> tk,
   types |-> Pick(<<[t |-> "pods", ix |-> x[1]], [t |-> "deployments", ix |-> x[2]], [t |-> "widgets", ix |-> x[3]]>>, b)]
GoodKube(b, u, a, cur, form) == [ok |-> TRUE, bad |-> "", cur |-> cur, form |-> form,
   ctx |-> LET s == Pick([i \in 1..3 |-> [n |-> <<"k1", "k2", "k3">>[i], up |-> u[i], auth |-> a[i]]], b) IN
           IF s = << >> THEN <<[n |-> "k1", up |-> u[1], auth |-> a[1]]>> ELSE s]
BadCfg == {"empty", "cut", "array", "types", "tail"}
BadKube == {"empty", "cut", "nocontexts", "badca", "halfbad", "otherkind", "types"}
Bad(w) == [ok |-> FALSE, bad |-> w]

RandCfg(bad) == IF bad THEN Bad(R(BadCfg))
  ELSE GoodCfg([i \in 1..3 |-> R(1..3) # 1], [i \in 1..3 |-> R({"x1", "x2"})], OneOf(<<"", "t1", "t1", "t2">>))
RandKube(bad) == IF bad THEN Bad(R(BadKube))
  ELSE GoodKube([i \in 1..3 |-> R(BOOLEAN)], [i \in 1..3 |-> R(Ups)], [i \in 1..3 |-> R({"s1", "s2"})],
                OneOf(<<"k1", "k2", "k3", "k1", "k2", "">>), R({"yaml", "json"}))
Rand(f, bad) == IF f = "cfg" THEN RandCfg(bad) ELSE RandKube(bad)

Loadable(d) == d.cfg.ok /\ d.kube.ok
\* what may be served: any pair of good contents there have been since the last settling
Pairs(s) == {[cfg |-> c, kube |-> k] : c \in {x \in s.cfg : x.ok}, k \in {x \in s.kube : x.ok}}

GInit == /\ disk = [cfg |-> Missing, kube |-> Missing] /\ poss = {} /\ seen = [cfg |-> {}, kube |-> {}]
         /\ link = "?" /\ steps = << >> /\ ops = << >> /\ init = << >>
First ==
  /\ link = "?"
  /\ \E l \in {OneOf(<<"no", "no", "no", "file", "dir">>)}, c \in {RandCfg(FALSE)}, k \in {RandKube(FALSE)}, h \in {R(1..3) = 1} :
       /\ link' = l /\ disk' = [cfg |-> c, kube |-> k]
       /\ poss' = {[cfg |-> c, kube |-> k]}
       /\ seen' = [cfg |-> {c}, kube |-> {k}]
       /\ init' = [link |-> l, home |-> h, cfg |-> c, kube |-> k, want |-> Expected(c, k), probes |-> Probes]
  /\ UNCHANGED <<steps, ops>>

Set(f, c) ==
  /\ disk' = [disk EXCEPT ![f] = c]
  /\ seen' = [seen EXCEPT ![f] = @ \cup {c}]
  /\ poss' = IF Loadable([disk EXCEPT ![f] = c]) THEN poss \cup Pairs([seen EXCEPT ![f] = @ \cup {c}]) ELSE poss
  /\ UNCHANGED <<link, steps, init>>
Op(r) == ops' = Append(ops, r)
Gone(f) == disk[f] = Missing
Do(f, how, c, gap) ==
  IF Gone(f) THEN Set(f, c) /\ Op([f |-> f, how |-> "create", c |-> c, gap |-> gap])
  ELSE IF how \in {"remove", "removekept", "away"} THEN Set(f, Missing) /\ Op([f |-> f, how |-> how, c |-> Missing, gap |-> gap])
  ELSE IF how = "chmod" THEN Set(f, disk[f]) /\ Op([f |-> f, how |-> how, c |-> disk[f], gap |-> gap])
  ELSE IF how = "churn" THEN Set(f, c) /\ Op([f |-> f, how |-> how, c |-> c, was |-> disk[f], gap |-> gap])
  ELSE Set(f, c) /\ Op([f |-> f, how |-> how, c |-> c, gap |-> gap])
Swing(c, k, kept, gap) ==
  /\ disk' = [cfg |-> c, kube |-> k]
  /\ seen' = [cfg |-> seen.cfg \cup {c}, kube |-> seen.kube \cup {k}]
  /\ poss' = IF Loadable(disk') THEN poss \cup Pairs(seen') ELSE poss
  /\ UNCHANGED <<link, steps, init>>
  /\ Op([how |-> IF kept THEN "swingkept" ELSE "swing", cfg |-> c, kube |-> k, gap |-> gap])
How == <<"inplace", "inplace", "inplace", "over", "over", "overkept", "remove", "removekept", "away", "chmod", "churn", "churn">>
Touch ==
  /\ link # "?" /\ Len(ops) < 4
  /\ \E f \in {R({"cfg", "kube"})}, how \in {OneOf(How)}, g \in {OneOf(<<0, 0, 0, 5, 300, 2600>>)}, bad \in {R(1..4) = 1}, kept \in {R(BOOLEAN)},
        both \in {R(1..3)} :
       IF link = "dir"
       THEN \E c \in {IF both = 1 THEN disk.cfg ELSE RandCfg(bad)}, k \in {IF both = 2 THEN disk.kube ELSE RandKube(bad /\ both = 1)} :
              Swing(c, k, kept, g)
       ELSE \E c \in {Rand(f, bad)} : Do(f, how, c, g)
Settle ==
  /\ ops # << >>
  /\ LET p == IF Loadable(disk) THEN {disk} ELSE poss IN
     /\ poss' = p
     /\ seen' = IF Cardinality(p) = 1 THEN LET q == CHOOSE q \in p : TRUE IN
                     [cfg |-> {q.cfg, disk.cfg}, kube |-> {q.kube, disk.kube}]
                ELSE seen
     /\ steps' = Append(steps, [ops |-> ops,
          kind |-> IF Loadable(disk) THEN "load" ELSE IF Cardinality(p) = 1 THEN "keep" ELSE "any",
          want |-> LET q == CHOOSE q \in p : TRUE IN Expected(q.cfg, q.kube)])
  /\ ops' = << >>
  /\ UNCHANGED <<disk, link, init>>
GNext == /\ Len(steps) < Depth
         /\ IF ops = << >> THEN First \/ Touch
            ELSE \E r \in {R(1..3)} : IF r = 1 /\ Len(ops) < 4 THEN Touch ELSE Settle
GenSpec == GInit /\ [][GNext]_gvars
EmitH == Len(steps) = Depth => PrintT("@@" \o ToJson([init |-> init, steps |-> steps]))
=============================================================================
