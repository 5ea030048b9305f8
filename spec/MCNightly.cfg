INIT Init
NEXT Next
INVARIANT Drawn
INVARIANT Kept
INVARIANT Emit
CHECK_DEADLOCK FALSE
