INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
