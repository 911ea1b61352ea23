------------------------------- MODULE MCOrder -------------------------------
(***************************************************************************)
(* Laws of the order of CkubeQuery: numbers are compared by value, the     *)
(* comparison by any sort keys is a total preorder wherever numbers are    *)
(* numbers, and with no sort it tells any two objects apart - so there is  *)
(* one order to answer.  Numeric stands for NumCmp or a mistake.           *)
(***************************************************************************)
EXTENDS CkubeQuery
CONSTANT Numeric(_, _), Compare(_, _, _, _)
VARIABLES a, b, c, ks
Nums == {"0", "-0", "7", "+7", "007", "10", "9", "-1", "-10", "-9.5", "1.5", "1.50", "01.05", "0.5", "-0.05", "99999999999999999999", "100000000000000000000"}
\* twenty times the value, where it is small
Val == [x \in Nums |-> CASE x \in {"0", "-0"} -> 0 [] x \in {"7", "+7", "007"} -> 140 [] x = "10" -> 200 [] x = "9" -> 180 [] x = "-1" -> -20 [] x = "-10" -> -200
          [] x = "-9.5" -> -190 [] x \in {"1.5", "1.50"} -> 30 [] x = "01.05" -> 21 [] x = "0.5" -> 10 [] x = "-0.05" -> -1 [] x = "99999999999999999999" -> 1000000 [] OTHER -> 1000001]
Words == {"", "a", "ab", "b", "B", "~", " ", "10", "9", "a-b", "a.b"}
Objs == {[k |-> x, n |-> y, id |-> "i"] : x \in {"", "ab", "10"}, y \in {"7", "10", "x"}} \cup {[k |-> "ab", n |-> "007", id |-> "j"], [k |-> "9", n |-> "-1", id |-> "j"]}
K(key, typ, dir) == [key |-> key, typ |-> typ, dir |-> dir]
SortSet == UNION {[1..i -> {K("k", "str", "asc"), K("k", "str", "desc"), K("n", "int", "asc"), K("n", "int", "desc"), K("n", "str", "asc")}] : i \in 1..2}
           \cup {<<K("k", "str", "asc"), K("n", "str", "asc"), K("id", "str", "asc")>>}
Init == a \in Objs /\ b \in Objs /\ c = a /\ ks \in SortSet
Next == c = a /\ c' \in Objs /\ UNCHANGED <<a, b, ks>>
Spec == Init /\ [][Next]_<<a, b, c, ks>>
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Cm(x, y) == Compare(ks, x, y, 1)
TextOrder == \A x, y \in Words : StrCmp(x, y) = 0 - StrCmp(y, x) /\ (StrCmp(x, y) = 0 <=> x = y) /\ (\A z \in Words : StrCmp(x, y) = -1 /\ StrCmp(y, z) = -1 => StrCmp(x, z) = -1)
ASSUME TextOrder
ByValue == (a = b /\ c = a) => \A x, y \in Nums : Numeric(x, y) = Sgn(Val[x] - Val[y])
Reflexive == Cm(a, a) \in {0, 2}
Antisymmetric == Cm(a, b) = (IF Cm(b, a) = 2 THEN 2 ELSE 0 - Cm(b, a))
Transitive == (Cm(a, b) \in {-1, 0} /\ Cm(b, c) \in {-1, 0}) => Cm(a, c) \in (IF Cm(a, b) = -1 \/ Cm(b, c) = -1 THEN {-1, 2} ELSE {0, 2})
Precedence == LET d == Compare(<<ks[1]>>, a, b, 1) IN Cm(a, b) = (IF d # 0 \/ Len(ks) = 1 THEN d ELSE Compare(Tail(ks), a, b, 1))
Reversed == Compare(<<[ks[1] EXCEPT !.dir = IF @ = "asc" THEN "desc" ELSE "asc"]>>, a, b, 1) = Compare(<<ks[1]>>, b, a, 1)
\* ties of all keys are ties of the values: "7" and "007" as numbers, equal text
TieIsEqual == Cm(a, b) = 0 => \A i \in DOMAIN ks : a[ks[i].key] = b[ks[i].key] \/ (ks[i].typ = "int" /\ NumCmp(a[ks[i].key], b[ks[i].key]) = 0)
AsText(x, y) == StrCmp(x, y)
\* mistakes: a descending key turns the keys after it as well; a tie of the first key ends the comparison
RECURSIVE TurnsAll(_, _, _, _)
TurnsAll(q, x, y, i) == IF i > Len(q) THEN 0 ELSE LET d == CmpFrom(<<[q[i] EXCEPT !.dir = "asc"]>>, x, y, 1) IN
                        IF d = 2 THEN 2 ELSE IF d # 0 THEN (IF q[1].dir = "desc" THEN 0 - d ELSE d) ELSE TurnsAll(q, x, y, i + 1)
NotStrict(q, x, y, i) == LET d == CmpFrom(q, x, y, i) IN IF d = 0 THEN -1 ELSE d
=============================================================================
