INIT Init
NEXT Next
INVARIANT CanonUnique
INVARIANT PlugCross
INVARIANT Sizes
INVARIANT Uniform
INVARIANT ReadBack
INVARIANT ReadTwo
INVARIANT Emit
CHECK_DEADLOCK FALSE
