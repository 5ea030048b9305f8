INIT Init
NEXT Next
INVARIANT AppendOnly
INVARIANT NoneLost
INVARIANT Emit
CHECK_DEADLOCK FALSE
