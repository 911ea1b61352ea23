------------------------------- MODULE MCFake -------------------------------
(* The design, exhaustively for small constants: what a watch opened on an   *)
(* empty store has been told folds to the part of the store it covers.       *)
EXTENDS CkubeFake
CONSTANTS MaxV, Covering(_, _)
VARIABLES ver, resets
Keys == {"p", "q"} \X {"c1", "c2"} \X {"m", "n"} \X {"a"}
W == {<<1, "p", "", << >>>>, <<2, "p", "m", <<"c1">>>>, <<3, "q", "n", <<"c2", "c1">>>>}
Init == deflt = "c1" /\ obj = << >> /\ reader = TRUE /\ events = << >> /\ ver = 0 /\ resets = 0
        /\ watches = [i \in 1..3 |-> LET w == CHOOSE w \in W : w[1] = i IN [t |-> w[2], ns |-> w[3], cs |-> w[4], open |-> TRUE, log |-> << >>]]
Next == \/ /\ ver < MaxV /\ ver' = ver + 1 /\ UNCHANGED resets
           /\ \E k \in Keys : Create(k, ver + 1) \/ Update(k, ver + 1) \/ Delete(k)
        \/ resets = 0 /\ obj # << >> /\ Reset /\ resets' = 1 /\ UNCHANGED ver
Spec == Init /\ [][Next]_<<fvars, ver, resets>>
\* The versions a log leaves behind.
RECURSIVE Fold(_, _)
Fold(log, S) == IF log = << >> THEN S
                ELSE Fold(Tail(log), IF Head(log)[1] = "delete" THEN S \ {Head(log)[2]} ELSE S \cup {Head(log)[2]})
Latest(i) == {obj[k] : k \in {x \in DOMAIN obj : Covering(watches[i], x)}}
RealCover(w, k) == Covers(w, k)
AnyCluster(w, k) == w.t = k[1] /\ w.ns \in {"", k[3]}
WatchFolds == resets = 0 => \A i \in DOMAIN watches : Latest(i) \subseteq Fold(watches[i].log, {})
NoForeign == \A i \in DOMAIN watches : \A x \in SetOf(watches[i].log) : \E j \in DOMAIN events : events[j][6] = x[2] /\ Covers(watches[i], <<events[j][2], events[j][3], events[j][4], events[j][5]>>)
OnceEach == \A i, j \in DOMAIN events : events[i] = events[j] => i = j
=============================================================================
