SPECIFICATION Spec
CONSTANTS
 DBs <- MCDBs
 Atoms <- MCAtoms
 MaxLen = 3
 MaxDepth = 2
 Bools = {"and", "or"}
 DELETE = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK UnsetNever
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
