INIT Init
NEXT Next
INVARIANT Contract
INVARIANT Keeps
INVARIANT Notices
INVARIANT Emit
CHECK_DEADLOCK FALSE
