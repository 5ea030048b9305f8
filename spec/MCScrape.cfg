INIT Init
NEXT Next
INVARIANT Right
INVARIANT Balanced
INVARIANT Split
INVARIANT Emit
CHECK_DEADLOCK FALSE
