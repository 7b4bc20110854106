SPECIFICATION Spec
CONSTANTS
 Top = 1
 K = {1, 2}
 J = {1, 2}
 D = {1, 2}
 Fixed = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK Refs Shape Sound
PROPERTIES Reads
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
