INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT MonotoneSound
INVARIANT Emit
CHECK_DEADLOCK FALSE
