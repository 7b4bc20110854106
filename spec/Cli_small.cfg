SPECIFICATION Spec
CONSTANTS
 BE = "sqlite"
 Bk = {"sqlite", "pg", "turso"}
 AV = {0, 1}
 MaxN = 2
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK ChainOK DataOK
PROPERTIES KeepsData KeepsChain KeepsApplied SchemaStays RefusedNothing Forward
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
