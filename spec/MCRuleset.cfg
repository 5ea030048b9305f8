INIT Init
NEXT Next
INVARIANT CanAct
INVARIANT Distinct
INVARIANT Named
INVARIANT Pairs
INVARIANT ReadBack
INVARIANT Emit
CHECK_DEADLOCK FALSE
