INIT Init
NEXT Next
INVARIANT Functional
INVARIANT Noticed
INVARIANT Emit
CHECK_DEADLOCK FALSE
