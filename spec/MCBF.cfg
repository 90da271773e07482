INIT Init
NEXT Next
INVARIANTS OverrideAgrees InNormalForm Commutes Inverse Square Order NaNLost
CHECK_DEADLOCK FALSE
