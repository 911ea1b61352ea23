---------------------------- MODULE CkubePlugin ----------------------------
(***************************************************************************)
(* The kubectl wrapper: what it runs for a command line.  A command line   *)
(* is a sequence of tokens (one or two words each) and what follows '--'.  *)
(*                                                                         *)
(* A token is [k, name, form, val, cs, reqs]: k is "word" (one word, val), *)
(* "opt" (an option with a value), "clusters" (the wrapper's own option,   *)
(* naming the clusters cs) or "sel" (the selector reqs, spelt val).        *)
(*                                                                         *)
(* Bound to the code: cmd/ckube-plugin, page (Clusters, QueryListOptions,  *)
(* QueryCreateOptions).                                                    *)
(***************************************************************************)
EXTENDS CkubeQuery

Words(t) ==
  CASE t.k = "word" -> <<t.val>>
    [] t.form = "sep" -> <<t.name, t.val>>
    [] t.form = "eq" -> <<t.name \o "=" \o t.val>>
    [] OTHER -> <<t.name \o t.val>>
RECURSIVE Join(_)
Join(ts) == IF ts = << >> THEN << >> ELSE Words(Head(ts)) \o Join(Tail(ts))

Theirs(ts) == SelectSeq(ts, LAMBDA t : t.k # "clusters")
Last0(ts, K) == LET S == {i \in DOMAIN ts : ts[i].k = K} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Chosen(ts) == LET i == Last0(ts, "clusters") IN IF i = 0 THEN << >> ELSE ts[i].cs
\* The sub command is the first word that is neither an option nor an option's value.
Command(ts) == LET S == {i \in DOMAIN ts : ts[i].k = "word" /\ (ts[i].val = "" \/ SubSeq(ts[i].val, 1, 1) # "-")} IN
               IF S = {} THEN "" ELSE ts[CHOOSE i \in S : \A j \in S : i <= j].val

Refused(ts) == \/ Command(ts) \notin {"get", "create"}
               \/ Command(ts) = "create" /\ Len(Chosen(ts)) > 1

Remove(s, i, n) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + n, Len(s))
\* The arguments got are the words ws with something of n words put in at i.
Inserted(got, ws, i, n) == i + n - 1 <= Len(got) /\ Remove(got, i, n) = ws
IsPrefix0(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* A creation in the one chosen cluster: the cluster is named by the last field manager.
Creates(got, ts, rest) ==
  LET ws == Join(Theirs(ts)) \o rest
      m == "dsm-cluster-" \o Chosen(ts)[1]
      after == Len(Join(SubSeq(Theirs(ts), 1, Last0(Theirs(ts), "fm"))))
  IN \/ \E i \in (after + 1)..(Len(got) - 1) :
          i <= Len(Join(Theirs(ts))) + 1 /\ got[i] = "--field-manager" /\ got[i + 1] = m /\ Inserted(got, ws, i, 2)
     \/ \E i \in (after + 1)..Len(got) :
          i <= Len(Join(Theirs(ts))) + 1 /\ got[i] = "--field-manager=" \o m /\ Inserted(got, ws, i, 1)

\* A read of the chosen clusters: the one effective selector stands where the user's stood, or
\* anywhere before '--' if there was none, and selects what both ask for.  sels[i] is what a
\* server answers for the selector found in word i.
Query(ts) == LET i == Last0(ts, "sel") IN
  [ns |-> "", calls |-> <<[h |-> "cl", v |-> Chosen(ts)]>>, parts |-> << >>, mark |-> "", sel |-> IF i = 0 THEN << >> ELSE ts[i].reqs]
Reads(got, ts, rest, sels, want) ==
  LET k == Theirs(ts)
      ws == Join(k) \o rest
      i == Last0(k, "sel")
  IN IF i = 0
     THEN \/ \E j \in 1..(Len(got) - 1) : j <= Len(Join(k)) + 1 /\ got[j] \in {"-l", "--selector"} /\ Inserted(got, ws, j, 2) /\ SetOfSeq(sels[j + 1]) = want /\ Len(sels[j + 1]) = Cardinality(want)
          \/ \E j \in 1..Len(got) : j <= Len(Join(k)) + 1 /\ (IsPrefix0("-l", got[j]) \/ IsPrefix0("--selector=", got[j])) /\ Inserted(got, ws, j, 1) /\ SetOfSeq(sels[j]) = want /\ Len(sels[j]) = Cardinality(want)
     ELSE LET j == Len(Join(SubSeq(k, 1, i))) IN
          /\ Len(got) = Len(ws)
          /\ \A x \in DOMAIN ws : x = j \/ got[x] = ws[x]
          /\ (CASE k[i].form = "sep" -> TRUE [] k[i].form = "eq" -> IsPrefix0(k[i].name \o "=", got[j]) [] OTHER -> IsPrefix0(k[i].name, got[j]))
          /\ SetOfSeq(sels[j]) = want /\ Len(sels[j]) = Cardinality(want)
=============================================================================
