INIT Init
NEXT Next
INVARIANT Arith
INVARIANT ClassesExact
INVARIANT TheoremsHoldAll
CHECK_DEADLOCK FALSE
