SPECIFICATION Spec
CONSTANTS
 Ts = {"k1", "k2", "k3"}
 Vs = {"v1", "v2"}
 Rs = {"r1", "r2"}
 OPT = FALSE
 BOSS = FALSE
 HANDLE = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK Integrity
PROPERTIES RefusedNothing LoadsNamed
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
