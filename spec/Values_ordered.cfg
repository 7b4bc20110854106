SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 R = 3
 Ordered = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK
PROPERTIES Split OnlyNamed
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
