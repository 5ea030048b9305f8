INIT Init
NEXT Next
INVARIANT Injective
INVARIANT Right
INVARIANT Refuses
INVARIANT Keeps
INVARIANT Emit
CHECK_DEADLOCK FALSE
