SPECIFICATION Spec
CONSTANTS
 Keys = {"k1", "k2"}
 Us = {"u1", "u2"}
 Ns = {"n0", "n1"}
 Slots = {"s1"}
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK UniqueColumn
PROPERTIES OthersUntouched FailureChangesNothing SavedIsStored DeletedIsGone
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
