SPECIFICATION Spec
CONSTANTS
 Holders = {"h1","h2","h3","h4"}
 MAX = 3
 Vals = {1,2}
 BREAK = TRUE
 KILL = FALSE
 ABANDON = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK Limit Waits Isolated
PROPERTIES NoLeak Clean
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
