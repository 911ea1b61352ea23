----------------------------- MODULE TraceList -----------------------------
(***************************************************************************)
(* Are the answers of the real server to lists and gets the ones           *)
(* CkubeQuery demands of the cached content?  Events: reset (configuration *)
(* and default cluster), put/del/clear (what the cache was told), list,    *)
(* get, table, and total (what a client computes from a page).             *)
(***************************************************************************)
EXTENDS CkubeQuery, Json, IOUtils

VARIABLES
  cfg,    \* [deflt, conf: type -> index configuration, kinds]
  cache,  \* cached objects, a function from <<type, cluster, namespace, name>>
  base,   \* [group -> what the first unpaged request of the group was answered]
  l
vars == <<cfg, cache, base, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
IsEvent(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
Restrict(f, D) == [k \in D |-> f[k]]

KeyOf(t, o) == <<t, o.c, o.ns, o.n>>
Objs(t) == {cache[k] : k \in {x \in DOMAIN cache : x[1] = t}}
IdOf(o) == <<o.c, o.ns, o.n, o.v>>
ById(t, id) == cache[<<t, id[1], id[2], id[3]>>]

TReset == IsEvent("reset") /\ cfg' = Trace[l].cfg /\ cache' = << >> /\ base' = << >>
TPut == IsEvent("put") /\ cache' = (KeyOf(Trace[l].t, Trace[l].o) :> Trace[l].o) @@ cache
        /\ base' = << >> /\ UNCHANGED cfg
\* Many objects at once.
TFill == IsEvent("fill")
         /\ LET t == Trace[l].t  O == SetOfSeq(Trace[l].os)
            IN cache' = [k \in {KeyOf(t, o) : o \in O} |-> CHOOSE o \in O : KeyOf(t, o) = k] @@ cache
         /\ base' = << >> /\ UNCHANGED cfg
TDel == IsEvent("del") /\ cache' = Restrict(cache, DOMAIN cache \ {KeyOf(Trace[l].t, Trace[l].o)})
        /\ base' = << >> /\ UNCHANGED cfg
TClear == IsEvent("clear")
          /\ cache' = Restrict(cache, {k \in DOMAIN cache : ~(k[1] = Trace[l].t /\ k[2] = Trace[l].c)})
          /\ base' = << >> /\ UNCHANGED cfg

Ok(e) == e.st = 200
Refused(e) == e.st >= 400 /\ e.st < 500

\* The unpaged answer: the selected objects, all of them once, in the requested
\* order, and the same sequence whenever it is asked for again.
FullAnswer(q, conf, S, items) ==
  /\ Len(items) = Cardinality(S)
  /\ {items[i] : i \in DOMAIN items} = {IdOf(o) : o \in S}
  /\ Ordered(q, conf, [i \in DOMAIN items |-> ById(q.t, items[i])])

TList ==
  /\ IsEvent("list")
  /\ LET e == Trace[l]
         q == e.q
         conf == cfg.conf[q.t]
         objs == Objs(q.t)
     IN /\ \/ Refused(e) /\ (MustRefuse(q, cfg.deflt, conf, objs) \/ MayRefuse(q, cfg.deflt, conf, objs)) = TRUE
              /\ UNCHANGED base
           \/ /\ Ok(e)
              /\ MustRefuse(q, cfg.deflt, conf, objs) = FALSE
              /\ LET S == Selected(q, cfg.deflt, conf, objs)
                     total == Cardinality(S)
                     r == Range(total, q.page, q.size)
                 IN /\ e.kind = cfg.kinds[q.t]
                    /\ e.remain = total - r[2]
                    /\ e.total = total
                    /\ IF r = <<0, total>>
                       THEN /\ FullAnswer(q, conf, S, e.items)
                            /\ (e.grp \in DOMAIN base => base[e.grp] = e.items)
                            /\ base' = (e.grp :> e.items) @@ base
                       ELSE /\ e.grp \in DOMAIN base
                            /\ e.items = SubSeq(base[e.grp], r[1] + 1, r[2])
                            /\ UNCHANGED base
        /\ UNCHANGED <<cfg, cache>>

RowsOf(t, conf, cols, rows, items) ==
  \A i \in DOMAIN rows : Len(rows[i]) = Len(cols) /\
     \A m \in {IndexOf(conf, ById(t, items[i]))} : \A j \in DOMAIN cols : rows[i][j] = m[cols[j]]

\* Table form: one row per item, one cell per column, each index has its column,
\* and the cell shows the item's value of it.
TTable ==
  /\ IsEvent("table")
  /\ LET e == Trace[l]
         q == e.q
         conf == cfg.conf[q.t]
         objs == Objs(q.t)
         S == Selected(q, cfg.deflt, conf, objs)
         r == Range(Cardinality(S), q.page, q.size)
     IN \E items \in {IF e.grp \in DOMAIN base THEN SubSeq(base[e.grp], r[1] + 1, r[2]) ELSE << >>} : \* worked out once
        \/ Refused(e) /\ (MustRefuse(q, cfg.deflt, conf, objs) \/ MayRefuse(q, cfg.deflt, conf, objs)) = TRUE
        \/ /\ Ok(e) /\ MustRefuse(q, cfg.deflt, conf, objs) = FALSE
           /\ e.kind = "Table"
           /\ e.grp \in DOMAIN base
           /\ Len(e.rows) = Len(items)
           /\ items # << >> =>
                /\ SetOfSeq(e.cols) = DOMAIN conf \cup {"cluster", "is_deleted", "name"}
                /\ Cardinality(SetOfSeq(e.cols)) = Len(e.cols)
           /\ RowsOf(q.t, conf, e.cols, e.rows, items)
  /\ UNCHANGED <<cfg, cache, base>>

\* A cached read of one object.
TGet ==
  /\ IsEvent("get")
  /\ LET e == Trace[l]
         c == IF e.c = "" THEN cfg.deflt ELSE e.c
         k == <<e.t, c, e.ns, e.n>>
     IN IF k \in DOMAIN cache THEN e.st = 200 /\ e.item = IdOf(cache[k])
        ELSE e.st = 404
  /\ UNCHANGED <<cfg, cache, base>>

\* Addressing a cluster with the option wrappers: refused when it would overwrite
\* an option the caller has set, otherwise only the marker is added.
TWrap ==
  /\ IsEvent("wrap")
  /\ LET e == Trace[l] IN
     IF e.set THEN e.err
     ELSE ~e.err /\ e.marker = "dsm-cluster-" \o e.cluster /\ e.before = e.after
  /\ UNCHANGED <<cfg, cache, base>>

\* Any request at all: it is answered and changes nothing.  Malformed query input is
\* never an internal error; a broken message or an upstream that is down may give one,
\* and who leaves without waiting gets no answer.
TRaw ==
  /\ IsEvent("raw")
  /\ CASE Trace[l].kind = "query" -> Trace[l].st \in 200..499
       [] Trace[l].kind \in {"frame", "down"} -> Trace[l].st \in 100..599
       [] Trace[l].kind = "abort" -> TRUE
  /\ UNCHANGED <<cfg, cache, base>>

TInit == cfg = << >> /\ cache = << >> /\ base = << >> /\ l = 1
TNext == TReset \/ TPut \/ TFill \/ TDel \/ TClear \/ TList \/ TTable \/ TGet \/ TWrap \/ TRaw
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>) ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
