SPECIFICATION Spec
CONSTANTS
 Numeric <- AsText
 Compare <- CmpFrom
INVARIANTS ByValue Reflexive Antisymmetric Transitive Precedence Reversed TieIsEqual
CHECK_DEADLOCK FALSE
