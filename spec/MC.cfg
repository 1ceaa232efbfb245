SPECIFICATION Spec
INVARIANT Inv
PROPERTY PausedRests LookingChangesNothing
CHECK_DEADLOCK FALSE
