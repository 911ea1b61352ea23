SPECIFICATION Spec
CONSTANTS
 Numeric <- NumCmp
 Compare <- TurnsAll
INVARIANTS ByValue Reflexive Antisymmetric Transitive Precedence Reversed TieIsEqual
CHECK_DEADLOCK FALSE
