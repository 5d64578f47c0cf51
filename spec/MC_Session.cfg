SPECIFICATION Spec
CONSTANTS LB4 = 8 N4 = 4 LB6 = 16 N6 = 8
INVARIANTS SameInv CoverInv FilterInv AfterInv Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
