INIT Init
NEXT Next
INVARIANT Right
INVARIANT OnlyParts
INVARIANT Lost
INVARIANT Twice
INVARIANT Foreign
INVARIANT Missing
INVARIANT Backwards
INVARIANT Emit
CHECK_DEADLOCK FALSE
