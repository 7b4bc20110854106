SPECIFICATION Spec
CONSTANTS
 Keys = {"k1", "k2"}
 Vals = {1, 2}
 ABORTS = TRUE
 BULK = TRUE
 DDL = TRUE
 BTX = FALSE
 CRASH = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK Consistent Clean
PROPERTIES AllOrNothing Isolated Ends
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
