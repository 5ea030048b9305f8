INIT Init
NEXT Next
INVARIANT Walked
INVARIANT Antisymmetric
INVARIANT Transitive
INVARIANT Mirror
INVARIANT Renamed
INVARIANT General
INVARIANT Emit
CHECK_DEADLOCK FALSE
