SPECIFICATION SimSpec
CONSTANTS
 BE = "sqlite"
 Bk = {"sqlite", "pg", "turso"}
 AV = {0, 1, 2, 3, 4}
 MaxN = 9
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK ChainOK DataOK
PROPERTIES KeepsData KeepsChain KeepsApplied SchemaStays RefusedNothing Forward
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
