------------------------------- MODULE MCQuery -------------------------------
(***************************************************************************)
(* Laws of CkubeQuery, for every cache content over a few objects and      *)
(* every query over a few restrictions: what the properties promise about  *)
(* lists has to follow from what the specification says a list is.         *)
(* Sel and Pages stand for the specification's or a mistaken meaning.      *)
(***************************************************************************)
EXTENDS CkubeQuery
CONSTANTS MaxParts, MaxCalls, Meaning(_, _, _, _), Slice(_, _, _)
VARIABLES objs, q
mvars == <<objs, q>>
Deflt == "c1"
Conf == [name |-> <<"name">>, lab |-> <<"label", "lab">>, none |-> <<"label", "none">>, dd |-> <<"dflt", "lab", "q">>]
Obj(c, ns, n, lab) == [c |-> c, ns |-> ns, n |-> n, v |-> 1, labels |-> IF lab = "" THEN << >> ELSE [lab |-> lab], annos |-> << >>, del |-> FALSE]
Universe == {Obj("c1", "a", "x", "p"), Obj("c2", "a", "x", ""), Obj("c1", "b", "xc1", "q"), Obj("c10", "a", "c1", "pq"), Obj("c2", "b", "p", "p")}
R(k, o, v) == [key |-> k, op |-> o, vals |-> v]
Fuzzy(v, e, n) == [k |-> "fuzzy", val |-> v, exact |-> e, neg |-> n]
Kv(key, v, e, n) == [k |-> "kv", key |-> key, val |-> v, exact |-> e, neg |-> n]
Adv(rs) == [k |-> "adv", reqs |-> rs]
Parts == {Fuzzy("p", FALSE, FALSE), Fuzzy("c1", TRUE, TRUE), Kv("lab", "p", FALSE, FALSE), Kv("name", "x", TRUE, TRUE), Kv("none", "", FALSE, FALSE),
          Adv(<<R("lab", "in", <<"p", "q">>)>>), Adv(<<R("name", "ne", <<"x">>), R("lab", "ex", << >>)>>), Adv(<<R("namespace", "in", <<"a">>)>>),
          Adv(<<R("cluster", "in", <<"c2", "c10">>), R("lab", "notin", <<"q">>)>>), Adv(<<R("cluster", "eq", <<"c1">>)>>)}
Cs == {<<"ns", <<"a">>>>, <<"ns", <<"b", "a">>>>, <<"cl", <<"c2">>>>, <<"cl", <<"c1", "c10">>>>, <<"cl", << >>>>}
CallSet == {[h |-> c[1], v |-> c[2]] : c \in Cs}
Seqs(S, k) == UNION {[1..i -> S] : i \in 0..k}

Init == /\ objs = Universe
        /\ q \in [ns : {"", "a"}, calls : Seqs(CallSet, MaxCalls), parts : Seqs(Parts, MaxParts), sel : {<< >>, <<R("lab", "in", <<"p">>)>>}, mark : {"", "c2"},
                  sort : {<< >>}, badsort : {FALSE}, page : {0}, size : {0}]
\* contents: every subset (restrictions act on each object for itself)
Next == \E o \in objs : objs' = objs \ {o} /\ UNCHANGED q
Spec == Init /\ [][Next]_mvars

S(x) == Meaning(x, Deflt, Conf, objs)
Front(s) == SubSeq(s, 1, Len(s) - 1)
LastOf(s) == s[Len(s)]
Perm(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
With(x, p) == [x EXCEPT !.parts = Append(@, p)]
Naming(x) == Addressed(x)

\* ---- C07: inside the addressed clusters
AdvClusters(p) == {r \in SetOfSeq(p.reqs) : r.key = "cluster"}
Confined ==
  /\ ~Addressed(q) => \A o \in S(q) : o.c = (IF q.mark = "" THEN Deflt ELSE q.mark)
  /\ Called(q, "cl") => \A o \in S(q) : o.c \in LastCall(q, "cl")
  /\ ~Called(q, "cl") => \A i \in DOMAIN q.parts : NamesCluster(q.parts[i]) => \A r \in AdvClusters(q.parts[i]) : \A o \in S(q) : o.c \in SetOfSeq(r.vals)
\* ---- C04: nothing is dropped, in whatever order
Conjunction ==
  /\ \A p \in Parts : (~NamesCluster(p) \/ Addressed(q)) => S(With(q, p)) \subseteq S(q)
  /\ S([q EXCEPT !.parts = Perm(@)]) = S(q)
  /\ \A p \in Parts : ~NamesCluster(p) => S(With(q, p)) = {o \in S(q) : LET m == IndexOf(Conf, o) IN PartHolds(Kept(q, p), m)}
  /\ S(q) \subseteq {o \in objs : SelHolds(q.sel, o.labels)} /\ (q.ns # "" => \A o \in S(q) : o.ns = q.ns)
Negation ==
  \A p \in {x \in Parts : x.k \in {"fuzzy", "kv"}} :
    LET no == [p EXCEPT !.neg = ~@] IN S(With(q, p)) \cap S(With(q, no)) = {} /\ S(With(q, p)) \cup S(With(q, no)) = S(q)
FuzzyIsAny == S(With(q, Fuzzy("p", FALSE, FALSE))) = UNION {S(With(q, Kv(k, "p", FALSE, FALSE))) : k \in Keys(Conf)}
\* ---- C11: the helpers restrict, and replace only their like
Helpers ==
  \A c \in CallSet :
    LET after == [q EXCEPT !.calls = Append(@, c)]
        before == [q EXCEPT !.calls = SelectSeq(@, LAMBDA x : x.h # c.h)]
        without == [q EXCEPT !.calls = SelectSeq(@, LAMBDA x : x.h # c.h),
                             !.parts = [i \in DOMAIN q.parts |-> IF q.parts[i].k = "adv" THEN [q.parts[i] EXCEPT !.reqs = SelectSeq(@, LAMBDA r : r.key # (IF c.h = "ns" THEN "namespace" ELSE "cluster"))] ELSE q.parts[i]]]
    IN /\ S(after) = S([before EXCEPT !.calls = Append(@, c)])
       /\ c.h = "ns" => S(after) = {o \in Meaning([without EXCEPT !.calls = SelectSeq(@, LAMBDA x : x.h # "ns")], Deflt, Conf, objs) : o.ns \in SetOfSeq(c.v)}
       /\ \A o \in S(after) : (IF c.h = "ns" THEN o.ns ELSE o.c) \in SetOfSeq(c.v)
\* ---- the meaning depends on each object alone
Local == S(q) = UNION {Meaning(q, Deflt, Conf, {o}) : o \in objs}
\* ---- C05: pages
Slices(t, s) == [p \in 1..(t + 2) |-> Slice(t, p, s)]
PagesOK ==
  \A t \in 0..7, s \in 1..9 :
    LET P == Slices(t, s) IN
    /\ P[1][1] = 0
    /\ \A p \in 1..(t + 1) : P[p + 1][1] = P[p][2] /\ P[p][1] <= P[p][2] /\ P[p][2] - P[p][1] <= s
    /\ P[t + 2][2] = t
    /\ \A p \in 1..(t + 2) : (p > 1 /\ P[p][1] = P[p][2]) <=> Beyond(t, p, s)
    /\ \A p \in 1..(t + 2) : ~Beyond(t, p, s) => (t - P[p][2]) + (P[p][2] - P[p][1]) + (p - 1) * s = t   \* the client's total
    /\ Slice(t, 0, s) = <<0, t>> /\ Slice(t, s, 0) = <<0, t>>
PagesHold == (objs = Universe /\ q.parts = << >> /\ q.calls = << >>) => PagesOK

\* ---- mistakes
DropsA(x, d, c, O) ==
  LET keep == SelectSeq([i \in DOMAIN x.parts |-> i], LAMBDA i : x.parts[i].k # "adv" \/ x.calls = << >> \/ \A j \in (i + 1)..Len(x.parts) : x.parts[j].k # "adv")
  IN Selected([x EXCEPT !.parts = [i \in DOMAIN keep |-> x.parts[keep[i]]]], d, c, O)
Everywhere(x, d, c, O) == UNION {Selected(x, k, c, O) : k \in {"c1", "c2", "c10"}}       \* forgets the default cluster
AnyNegation(x, d, c, O) ==         \* a negated fuzzy part needs one value that differs, not all
  {o \in O : o \in Selected([x EXCEPT !.parts = SelectSeq(@, LAMBDA p : ~(p.k = "fuzzy" /\ p.neg))], d, c, O)
             /\ LET m == IndexOf(c, o) IN \A i \in DOMAIN x.parts : (x.parts[i].k = "fuzzy" /\ x.parts[i].neg) => \E k \in DOMAIN m : ~ValHolds(x.parts[i], m[k])}
Truncated(t, p, s) == LET r == Range(t, p, s) IN IF p > 0 /\ s > 0 /\ r[2] = t /\ r[2] - r[1] < s /\ r[1] > 0 THEN <<r[1], r[1]>> ELSE r
=============================================================================
