SPECIFICATION Spec
CONSTANTS
 Ts = {"k1", "k2"}
 Vs = {"v1", "v2"}
 Rs = {"r1"}
 OPT = FALSE
 BOSS = FALSE
 HANDLE = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK Integrity
PROPERTIES RefusedNothing LoadsNamed
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
