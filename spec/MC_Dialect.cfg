SPECIFICATION Spec
CONSTANTS LB4 = 8 N4 = 4 LB6 = 16 N6 = 8
INVARIANTS DialectInv WholeInv Emit
CHECK_DEADLOCK FALSE
