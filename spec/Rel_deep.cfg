SPECIFICATION Spec
CONSTANTS
 DBs <- MCDBs
 Atoms <- MCAtomsFew
 MaxLen = 4
 MaxDepth = 2
 Bools = {"and", "or"}
 DELETE = FALSE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK UnsetNever
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
