----------------------------- MODULE CkubeQuery -----------------------------
(***************************************************************************)
(* What a cached list has to answer: which objects match, in which order,  *)
(* which page of them, and when the query is refused.                      *)
(*                                                                         *)
(* A query is given as an abstract syntax tree; rendering it into search   *)
(* strings, selectors and the encoded list option is what the client side  *)
(* and the harness do, parsing it back is the implementation's business.   *)
(*                                                                         *)
(* Bound to the code: page (SearchParts, Match, Clusters, Namespaces),     *)
(* store/memory (Query, sortObjs), api (Proxy, serverPrint).               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* ---- strings ---------------------------------------------------------------
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharAt(s, i) == SubSeq(s, i, i)
Ord == [c \in {CharAt(ASCII, i) : i \in 1..Len(ASCII)} |-> CHOOSE i \in 1..Len(ASCII) : CharAt(ASCII, i) = c]
Contains(v, s) == \E i \in 0..(Len(v) - Len(s)) : SubSeq(v, i + 1, i + Len(s)) = s
\* -1, 0 or 1
RECURSIVE StrCmpFrom(_, _, _)
StrCmpFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF CharAt(a, i) = CharAt(b, i) THEN StrCmpFrom(a, b, i + 1)
  ELSE IF Ord[CharAt(a, i)] < Ord[CharAt(b, i)] THEN -1 ELSE 1
StrCmp(a, b) == IF a = b THEN 0 ELSE StrCmpFrom(a, b, 1)

\* ---- numbers: [+-]digits[.digits], of any size -------------------------------
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : CharAt(s, i) \in Digits
Unsigned(s) == IF Len(s) > 0 /\ CharAt(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
DotAt(s) == IF \E i \in 1..Len(s) : CharAt(s, i) = "." THEN CHOOSE i \in 1..Len(s) : CharAt(s, i) = "." ELSE 0
IsNum(s) == LET u == Unsigned(s)  d == DotAt(u) IN
            IF d = 0 THEN AllDigits(u)
            ELSE AllDigits(SubSeq(u, 1, d - 1)) /\ AllDigits(SubSeq(u, d + 1, Len(u)))
RECURSIVE NoLeadingZero(_), NoTrailingZero(_)
NoLeadingZero(s) == IF s # "" /\ CharAt(s, 1) = "0" THEN NoLeadingZero(SubSeq(s, 2, Len(s))) ELSE s
NoTrailingZero(s) == IF s # "" /\ CharAt(s, Len(s)) = "0" THEN NoTrailingZero(SubSeq(s, 1, Len(s) - 1)) ELSE s
WholePart(s) == LET u == Unsigned(s)  d == DotAt(u) IN NoLeadingZero(IF d = 0 THEN u ELSE SubSeq(u, 1, d - 1))
Fraction(s)  == LET u == Unsigned(s)  d == DotAt(u) IN IF d = 0 THEN "" ELSE NoTrailingZero(SubSeq(u, d + 1, Len(u)))
IsZero(s) == WholePart(s) = "" /\ Fraction(s) = ""
Minus(s) == CharAt(s, 1) = "-" /\ ~IsZero(s)
AbsCmp(a, b) ==
  LET x == WholePart(a)  y == WholePart(b) IN
  IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1)
  ELSE IF x # y THEN StrCmp(x, y) ELSE StrCmp(Fraction(a), Fraction(b))
NumCmp(a, b) ==
  IF Minus(a) THEN (IF Minus(b) THEN AbsCmp(b, a) ELSE -1)
  ELSE IF Minus(b) THEN 1 ELSE AbsCmp(a, b)

\* ---- objects and their index -------------------------------------------------
\* An object is [c, ns, n, v, labels, annos, del]; the index configuration of its
\* type maps index keys to the value's source.
Or(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
SourceValue(src, o) ==
  CASE src[1] = "name"  -> o.n
    [] src[1] = "ns"    -> o.ns
    [] src[1] = "label" -> Or(o.labels, src[2], "")
    [] src[1] = "anno"  -> Or(o.annos, src[2], "")
    [] src[1] = "dflt"  -> Or(o.labels, src[2], src[3])        \* template with a default
    [] src[1] = "quote" -> "\"" \o Or(o.labels, src[2], "") \o "\""
    [] src[1] = "lit"   -> src[2]
IndexOf(conf, o) ==
  [k \in {"cluster", "namespace", "name", "is_deleted"} |->
     CASE k = "cluster" -> o.c [] k = "namespace" -> o.ns [] k = "name" -> o.n
       [] OTHER -> IF o.del THEN "true" ELSE "false"]
  @@ [k \in DOMAIN conf |-> SourceValue(conf[k], o)]

\* ---- matching ----------------------------------------------------------------
SetOfSeq(s) == {s[i] : i \in DOMAIN s}
ReqHolds(r, m) ==
  LET has == r.key \in DOMAIN m IN
  CASE r.op = "in"    -> has /\ m[r.key] \in SetOfSeq(r.vals)
    [] r.op = "eq"    -> has /\ m[r.key] = r.vals[1]
    [] r.op = "notin" -> ~has \/ m[r.key] \notin SetOfSeq(r.vals)
    [] r.op = "ne"    -> ~has \/ m[r.key] # r.vals[1]
    [] r.op = "ex"    -> has
    [] r.op = "nex"   -> ~has
SelHolds(reqs, m) == \A i \in DOMAIN reqs : ReqHolds(reqs[i], m)
ValHolds(p, v) == IF p.exact THEN v = p.val ELSE Contains(v, p.val)
PartHolds(p, m) ==
  CASE p.k = "fuzzy" -> (IF p.neg THEN \A k \in DOMAIN m : ~ValHolds(p, m[k]) ELSE \E k \in DOMAIN m : ValHolds(p, m[k]))
    [] p.k = "kv"    -> p.key \in DOMAIN m /\ (IF p.neg THEN ~ValHolds(p, m[p.key]) ELSE ValHolds(p, m[p.key]))
    [] p.k = "adv"   -> SelHolds(p.reqs, m)
    [] p.k = "bad"   -> FALSE
BadPart(p, keys) == p.k = "bad" \/ (p.k = "kv" /\ p.key \notin keys)

\* ---- namespaces and clusters a query addresses --------------------------------
\* q.calls are the calls of the namespace and cluster helpers, in order: each
\* restricts the search to the given values and replaces an earlier restriction
\* of its kind, be it of a helper or in an advanced part.
Calls(q, h) == SelectSeq(q.calls, LAMBDA c : c.h = h)
Called(q, h) == Calls(q, h) # << >>
LastCall(q, h) == SetOfSeq(Calls(q, h)[Len(Calls(q, h))].v)
Kept(q, p) == IF p.k # "adv" THEN p
              ELSE [p EXCEPT !.reqs = SelectSeq(p.reqs, LAMBDA r : ~(r.key = "namespace" /\ Called(q, "ns"))
                                                                  /\ ~(r.key = "cluster" /\ Called(q, "cl")))]
NamesCluster(p) == p.k = "adv" /\ \E i \in DOMAIN p.reqs : p.reqs[i].key = "cluster" /\ p.reqs[i].op \in {"in", "eq"}
Addressed(q) == Called(q, "cl") \/ \E i \in DOMAIN q.parts : NamesCluster(q.parts[i])
\* A search names clusters (with the helper or in an advanced part), the request
\* carries the addressing marker of one, or the default cluster is meant.
InAddressed(q, deflt, o) ==
  IF Called(q, "cl") THEN o.c \in LastCall(q, "cl")
  ELSE Addressed(q) \/ o.c = (IF q.mark # "" THEN q.mark ELSE deflt)
InNamespaces(q, o) == (q.ns = "" \/ o.ns = q.ns) /\ (Called(q, "ns") => o.ns \in LastCall(q, "ns"))

\* ---- the answer ---------------------------------------------------------------
\* objs: set of cached objects of the type; conf: its index configuration.
Considered(q, deflt, objs) == {o \in objs : (q.ns = "" \/ o.ns = q.ns) /\ InAddressed(q, deflt, o)}
Found(q, deflt, conf, objs) ==
  {o \in objs : InNamespaces(q, o) /\ InAddressed(q, deflt, o)
                /\ LET m == IndexOf(conf, o) IN \A i \in DOMAIN q.parts : PartHolds(Kept(q, q.parts[i]), m)}
Selected(q, deflt, conf, objs) == {o \in Found(q, deflt, conf, objs) : SelHolds(q.sel, o.labels)}

Keys(conf) == DOMAIN conf \cup {"cluster", "namespace", "name", "is_deleted"}
Malformed(q) == \E i \in DOMAIN q.parts : q.parts[i].k = "bad"
BadSearch(q, conf) == \E i \in DOMAIN q.parts : BadPart(q.parts[i], Keys(conf))
BadSort(q, conf) == q.badsort \/ \E i \in DOMAIN q.sort : q.sort[i].key \notin Keys(conf)
DefaultSort == <<[key |-> "cluster", typ |-> "str", dir |-> "asc"], [key |-> "namespace", typ |-> "str", dir |-> "asc"],
                 [key |-> "name", typ |-> "str", dir |-> "asc"]>>
SortKeys(q) == IF q.sort = << >> THEN DefaultSort ELSE q.sort
NotANumber(q, conf, o) == LET m == IndexOf(conf, o) IN
                          \E i \in DOMAIN q.sort : q.sort[i].typ = "int" /\ ~IsNum(m[q.sort[i].key])

\* The comparison of two objects by the sort keys: -1, 0, 1, or 2 when it needs
\* a number where there is none.
RECURSIVE CmpFrom(_, _, _, _)
CmpFrom(ks, a, b, i) ==
  IF i > Len(ks) THEN 0
  ELSE LET k == ks[i] IN
       IF k.typ = "int" /\ ~(IsNum(a[k.key]) /\ IsNum(b[k.key])) THEN 2
       ELSE LET c == IF k.typ = "int" THEN NumCmp(a[k.key], b[k.key]) ELSE StrCmp(a[k.key], b[k.key]) IN
            IF c = 0 THEN CmpFrom(ks, a, b, i + 1)
            ELSE IF k.dir = "desc" THEN 0 - c ELSE c
Cmp(q, conf, a, b) == CmpFrom(SortKeys(q), IndexOf(conf, a), IndexOf(conf, b), 1)

\* Refusals the property demands, and those it permits on top.
Range(total, p, s) ==
  IF p = 0 \/ s = 0 THEN <<0, total>>
  ELSE IF p - 1 > total \div s THEN <<total, total>>
  ELSE LET st == (p - 1) * s  en == IF total - st > s THEN st + s ELSE total IN <<st, en>>
Beyond(total, p, s) == p > 1 /\ s > 0 /\ Range(total, p, s)[1] >= total
MustRefuse(q, deflt, conf, objs) ==
  \/ q.page < 0 \/ q.size < 0
  \/ Malformed(q)
  \/ BadSearch(q, conf) /\ Considered(q, deflt, objs) # {}
  \/ LET S == Selected(q, deflt, conf, objs) IN
     \/ BadSort(q, conf) /\ S # {}
     \/ ~BadSort(q, conf) /\ \E a \in S : NotANumber(q, conf, a) /\ \E b \in S \ {a} : Cmp(q, conf, a, b) = 2
     \/ Beyond(Cardinality(S), q.page, q.size)
MayRefuse(q, deflt, conf, objs) ==
  \/ BadSearch(q, conf) \/ BadSort(q, conf)
  \/ \E a \in Found(q, deflt, conf, objs) : NotANumber(q, conf, a)

\* A sequence of objects is in the requested order.
Ordered(q, conf, seq) == \A i \in 1..(Len(seq) - 1) : Cmp(q, conf, seq[i], seq[i + 1]) \in {-1, 0}
=============================================================================
