SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
