SPECIFICATION Spec
CONSTANTS
 Numeric <- NumCmp
 Compare <- NotStrict
INVARIANTS ByValue Reflexive Antisymmetric Transitive Precedence Reversed TieIsEqual
CHECK_DEADLOCK FALSE
