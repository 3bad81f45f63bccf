INIT InitCases
NEXT NextCases
INVARIANT Laws
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
