----------------------------- MODULE CkubeConc -----------------------------
(* Reads concurrent with updates (C12).                                     *)
(* A *unit* is what a read must see as it was at a single instant: a whole  *)
(* namespace of one type and cluster where one source at a time updates it, *)
(* a single object identity where several sources update at once.  All that *)
(* is known from outside are the instants at which every update and every   *)
(* read began and ended.  From these the module derives, at every instant,  *)
(* the values a unit may have (poss), and for every read in progress the    *)
(* values it may return for a unit (seen).                                  *)
EXTENDS Naturals, Sequences, FiniteSets

\* poss[u] is a set of entries; e is the instant its update ended, 0 if it is still in progress
Entry(val, w, e) == [val |-> val, w |-> w, e |-> e]
Vals(P) == {x.val : x \in P}
Init0(U, v0, nobody) == [u \in U |-> {Entry(v0, nobody, 1)}]

\* an update w of the units in DOMAIN new begins
PossBegin(poss, w, new) ==
  [u \in DOMAIN poss |-> IF u \in DOMAIN new THEN poss[u] \cup {Entry(new[u], w, 0)} ELSE poss[u]]
SeenBegin(seen, new) ==
  [r \in DOMAIN seen |-> [u \in DOMAIN seen[r] |-> IF u \in DOMAIN new THEN seen[r][u] \cup {new[u]} ELSE seen[r][u]]]
\* ... and ends at instant t, having begun at instant b: what had ended before b is overwritten
PossEnd(poss, w, b, t) ==
  [u \in DOMAIN poss |->
     IF \E x \in poss[u] : x.w = w /\ x.e = 0
     THEN {IF x.w = w /\ x.e = 0 THEN Entry(x.val, w, t) ELSE x
           : x \in {y \in poss[u] : y.e = 0 \/ y.e >= b}}
     ELSE poss[u]]
\* a read begins: whatever a unit may be now
SeenNow(poss) == [u \in DOMAIN poss |-> Vals(poss[u])]
=============================================================================
