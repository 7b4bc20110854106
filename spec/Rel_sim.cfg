SPECIFICATION Spec
CONSTANTS
 DBs <- MCDBs
 Atoms <- MCAtoms
 MaxLen = 16
 MaxDepth = 4
 Bools = {"and", "or"}
 DELETE = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK UnsetNever
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
