---------------------------- MODULE CkubeObjects ----------------------------
(* Objects of every configured type are cached and served intact, and the    *)
(* index is what the configured expressions yield (C17).                     *)
(* An object is the set of its leaves <<pointer, type, text>>: the pointer   *)
(* as in RFC 6901, the type one of s n b 0 (null) m (empty map) l (empty     *)
(* list).                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES conf,    \* type -> [index: key -> expression, custom: BOOLEAN, apiv, kind, listkind]
          deflt,   \* the default cluster
          cache    \* <<type, cluster, namespace, name>> -> set of leaves
ovars == <<conf, deflt, cache>>

\* ---- what an expression yields for an object
At(o, p) == {x \in o : x[1] = p /\ x[2] # "0"}
Has(o, p) == At(o, p) # {}
Text(o, p) == (CHOOSE x \in At(o, p) : TRUE)[3]
\* list elements: p/0, p/1, ... a scalar or a map, whose own leaves lie below
Prefix(p, s) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Elem(p, i) == p \o "/" \o ToString(i)
InElem(q, x) == x[1] = q \/ Prefix(q \o "/", x[1])
RECURSIVE Count(_, _, _)
Count(o, p, i) == IF \E x \in o : InElem(Elem(p, i), x) THEN Count(o, p, i + 1) ELSE i

RECURSIVE Join(_, _, _)
Join(sep, ss, i) == IF i > Len(ss) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o ss[i] \o Join(sep, ss, i + 1)

RECURSIVE Parts(_, _, _, _), Loop(_, _, _, _, _)
\* base: the pointer of what "." stands for
Part(x, o, base) ==
  CASE x[1] = "t" -> x[2]                                                       \* text
    [] x[1] = "p" -> IF Has(o, base \o x[2]) THEN Text(o, base \o x[2]) ELSE ""  \* JSON path, missing keys allowed
    [] x[1] = "s" -> LET n == Count(o, base \o x[2], 0)                          \* {.list[*].field}
                         have == SelectSeq([i \in 1..n |-> Elem(base \o x[2], i - 1) \o x[3]], LAMBDA q : Has(o, q))
                     IN Join(" ", [i \in DOMAIN have |-> Text(o, have[i])], 1)
    [] x[1] = "r" -> Loop(x[3], o, base \o x[2], 0, Count(o, base \o x[2], 0))   \* {range} of a JSON path, range of a template
    [] x[1] = "f" -> IF Has(o, base \o x[2]) THEN Text(o, base \o x[2]) ELSE "<no value>"
    [] x[1] = "d" -> IF Has(o, base \o x[3]) THEN Text(o, base \o x[3]) ELSE x[2]
    [] x[1] = "q" -> "\"" \o Text(o, base \o x[2]) \o "\""
    [] x[1] = "j" -> Join(x[2], [i \in DOMAIN x[3] |-> Text(o, base \o x[3][i])], 1)
    [] x[1] = "i" -> IF Has(o, base \o x[2]) /\ Text(o, base \o x[2]) # "" THEN Parts(x[3], o, base, 1) ELSE Parts(x[4], o, base, 1)
Parts(xs, o, base, i) == IF i > Len(xs) THEN "" ELSE Part(xs[i], o, base) \o Parts(xs, o, base, i + 1)
Loop(xs, o, p, i, n) == IF i >= n THEN "" ELSE Parts(xs, o, Elem(p, i), 1) \o Loop(xs, o, p, i + 1, n)

\* expression: <<"lit", text>>, <<"jp", parts>>, <<"tm", parts>>
Eval(x, o) == IF x[1] = "lit" THEN x[2] ELSE Parts(x[2], o, "", 1)

Deleted(o) == Has(o, "/metadata/deletionTimestamp")
\* the index of an object: what is configured, and what is built in
Index(t, c, o) ==
  LET I == conf[t].index IN
  [k \in DOMAIN I \cup {"cluster", "is_deleted"} |->
     CASE k = "cluster" -> c
       [] k = "is_deleted" -> (IF Deleted(o) THEN "true" ELSE "false")
       [] OTHER -> Eval(I[k], o)]
\* ... and what searches see: the identity, too
Searched(t, k, o) == [namespace |-> k[3], name |-> k[4]] @@ Index(t, k[2], o)

\* ---- what makes no difference: absent and empty metadata, absent and empty
\* fields of a built-in kind; nothing of the body of a custom object
Nothing(t, x) ==
  IF conf[t].custom /\ ~Prefix("/metadata/", x[1]) THEN FALSE
  ELSE x[2] \in {"0", "m", "l"} \/ (Prefix("/metadata/", x[1]) /\ x[3] \in {"", "0", "false"})
Substance(t, o) == {x \in o : ~Nothing(t, x)}

ClusterAnno == "/metadata/annotations/ckube.doacloud.io~1cluster"
IndexAnno == "/metadata/annotations/ckube.daocloud.io~1indexes"
\* served is what the object was reported as, with the two annotations;
\* the text of the second is given decoded, as idx
ServedAs(k, served, idx) ==
  LET t == k[1]
      o == cache[k]
      own == {x \in served : x[1] \in {ClusterAnno, IndexAnno}}
      I == Index(t, k[2], o)
  IN /\ Substance(t, served \ own) = Substance(t, {x \in o : x[1] \notin {ClusterAnno, IndexAnno}})
     /\ <<ClusterAnno, "s", k[2]>> \in own /\ Cardinality(own) = 2
     /\ \A i \in DOMAIN I : i \in DOMAIN idx /\ idx[i] = I[i]
     /\ \A i \in DOMAIN idx \ DOMAIN I : i \in {"namespace", "name"} /\ idx[i] = Searched(t, k, o)[i]

Put(k, o) == cache' = (k :> o) @@ cache /\ UNCHANGED <<conf, deflt>>
Del(k) == cache' = [x \in DOMAIN cache \ {k} |-> cache[x]] /\ UNCHANGED <<conf, deflt>>
=============================================================================
