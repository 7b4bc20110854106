SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 R = 2
 Ordered = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK
PROPERTIES Split OnlyNamed
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
