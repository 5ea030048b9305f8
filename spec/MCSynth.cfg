INIT Init
NEXT Next
INVARIANT Contract
INVARIANT Notices
INVARIANT Emit
CHECK_DEADLOCK FALSE
