INIT Init
NEXT Next
INVARIANT Sound
INVARIANT Congruent
INVARIANT Complete
INVARIANT Monotone
INVARIANT CompressSmall
INVARIANT SatDone
INVARIANT NoNewClass
INVARIANT OneStep
INVARIANT Emit
CHECK_DEADLOCK FALSE
