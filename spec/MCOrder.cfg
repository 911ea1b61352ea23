SPECIFICATION Spec
CONSTANTS
 Numeric <- NumCmp
 Compare <- CmpFrom
INVARIANTS ByValue Reflexive Antisymmetric Transitive Precedence Reversed TieIsEqual
CHECK_DEADLOCK FALSE
