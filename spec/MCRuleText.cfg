INIT Init
NEXT Next
INVARIANT ReadsRight
INVARIANT RoundTrip
INVARIANT Injective
INVARIANT Lists
INVARIANT Emit
CHECK_DEADLOCK FALSE
