INIT DerInit
NEXT DerNext
INVARIANT DerSound
INVARIANT DerSelf
INVARIANT DerMore
INVARIANT DerEmit
CHECK_DEADLOCK FALSE
