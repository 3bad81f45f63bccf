INIT InitArith
NEXT NextArith
VIEW ViewArith
INVARIANT InType
ACTION_CONSTRAINT EmitArith
CHECK_DEADLOCK FALSE
