SPECIFICATION Spec
CONSTANTS LB4 = 2 N4 = 2 LB6 = 1 N6 = 3
INVARIANTS NetInv CountInv RangeInv CollapseInv Emit
CHECK_DEADLOCK FALSE
