SPECIFICATION Spec
CONSTANTS LB4 = 8 N4 = 4 LB6 = 16 N6 = 8
INVARIANTS RuleInv PfInv TableInv DefInv NameInv NatInv IfInv RejectInv BoundInv FlatInv NoiseInv IdentInv Emit
PROPERTY Frozen
CHECK_DEADLOCK FALSE
