SPECIFICATION Spec
INVARIANTS GlobInv Emit
CHECK_DEADLOCK FALSE
