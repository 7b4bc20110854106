SPECIFICATION Spec
CONSTANTS
 Holders = {"h1","h2","h3"}
 MAX = 2
 Vals = {1}
 BREAK = FALSE
 KILL = FALSE
 ABANDON = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK Limit Waits Isolated
PROPERTIES NoLeak Clean
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
