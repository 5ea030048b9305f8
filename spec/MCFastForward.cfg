INIT Init
NEXT Next
INVARIANT Contract
INVARIANT AllValid
INVARIANT Emit
CHECK_DEADLOCK FALSE
