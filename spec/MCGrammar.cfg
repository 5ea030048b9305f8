INIT Init
NEXT Next
INVARIANT Derived
INVARIANT Growing
INVARIANT Emit
CHECK_DEADLOCK FALSE
