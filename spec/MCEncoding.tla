----------------------------- MODULE MCEncoding -----------------------------
(***************************************************************************)
(* How a long query travels inside a label selector: cut into chunks that  *)
(* become the values of one "notin" requirement - a set, so neither their  *)
(* order nor their number of occurrences survives - each with its offset,  *)
(* written with at least Width digits.  Checked: whatever the length, the  *)
(* chunks merge to what was cut.  Characters are the numbers 1, 2, 3, ..   *)
(*                                                                         *)
(* Bound to the code: kube (SplittingValue, MergeValues); in the code the  *)
(* chunks have 56 characters and offsets at least 4 digits.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Each, Width, MaxLen, Design
VARIABLE n
Text(k) == [i \in 1..k |-> i % 3]       \* few different characters, so that chunks look alike

RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<k>> ELSE Append(Digits(k \div 10), k % 10)
RECURSIVE Pad(_)
Pad(d) == IF Len(d) < Width THEN Pad(<<0>> \o d) ELSE d

\* a value: [off: digits before the dot, or << >> without dot, txt: characters]
Cut(s) ==
  IF Len(s) <= Each THEN {[off |-> << >>, txt |-> s]}
  ELSE {[off |-> IF Design = "nooffset" THEN << >> ELSE Pad(Digits(Each * i)),
         txt |-> SubSeq(s, Each * i + 1, IF Len(s) <= Each * (i + 1) THEN Len(s) ELSE Each * (i + 1))] :
        i \in 0..((Len(s) - 1) \div Each)}

\* the order of the digits as text: the first difference decides
RECURSIVE Lexi(_, _)
Lexi(a, b) == IF a = << >> THEN b # << >> ELSE IF b = << >> THEN FALSE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Lexi(Tail(a), Tail(b))
Before(v, w) == IF Design # "lexi" /\ Len(v.off) # Len(w.off) THEN Len(v.off) < Len(w.off) ELSE Lexi(v.off, w.off)

RECURSIVE Merge(_)
Merge(V) ==
  IF V = {} THEN << >>
  ELSE LET first == CHOOSE v \in V : \A w \in V \ {v} : ~Before(w, v) IN first.txt \o Merge(V \ {first})

\* The text is base64 of JSON, of whose alphabet '+' (62) and '/' (63) may not occur in a
\* label value.  JSON leaves no control character and no '>', the escaping no '?' and
\* nothing from '~' on: then no position of a triple of bytes yields 62 or 63.
Groups(a, b, c) == {a \div 4, (a % 4) * 16 + b \div 16, (b % 16) * 4 + c \div 64, c % 64}
Bytes == (32..125) \ {62, 63}
ASSUME \A a, b \in Bytes : {62, 63} \cap (Groups(a, b, 32) \cup Groups(32, a, b) \cup {a % 64}) = {}
ASSUME \A x \in {62, 63, 126, 127} : {62, 63} \cap Groups(32, 32, x) # {}      \* each of them has to be escaped

Init == n = 0
Next == n < MaxLen /\ n' = n + 1
Spec == Init /\ [][Next]_n
RoundTrip == Merge(Cut(Text(n))) = Text(n)
\* a value fits into a label value: here, no chunk is longer than asked for
Fits == \A v \in Cut(Text(n)) : Len(v.txt) <= Each /\ (n > 0 => v.txt # << >>)
\* no two chunks have the same offset, so none is lost in the set
Distinct == Cardinality(Cut(Text(n))) = IF n <= Each THEN 1 ELSE ((n - 1) \div Each) + 1
=============================================================================
