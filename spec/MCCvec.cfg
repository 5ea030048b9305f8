INIT Init
NEXT Next
INVARIANT Exact
INVARIANT FastIsPart
INVARIANT Groups
INVARIANT TotalSame
INVARIANT Emit
CHECK_DEADLOCK FALSE
