SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
INVARIANT VisibleOnlyLive
INVARIANT OwnedSubset
INVARIANT OwnedIndexed
INVARIANT EverythingIndexed
INVARIANT Referential
INVARIANT Idempotent
INVARIANT Commute
INVARIANT ExportComplete
PROPERTY Monotone
PROPERTY FailNoChange
CHECK_DEADLOCK FALSE
