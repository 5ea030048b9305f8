INIT Init
NEXT Next
INVARIANT Symmetric
INVARIANT OnlyValid
INVARIANT OnlyInvalid
INVARIANT NoPrior
INVARIANT Covered
INVARIANT Accepted
INVARIANT Refuses
INVARIANT Emit
CHECK_DEADLOCK FALSE
