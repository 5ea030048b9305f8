INIT Init
NEXT Next
INVARIANT Members2
INVARIANT Exactly
INVARIANT AllFine
INVARIANT Keeps
INVARIANT UndefinedAlone
INVARIANT Emit
CHECK_DEADLOCK FALSE
