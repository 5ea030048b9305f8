SPECIFICATION Spec
INVARIANT OwnReport
INVARIANT NoPartial
INVARIANT NeverTwice
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
