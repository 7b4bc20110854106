SPECIFICATION Spec
CONSTANTS
 Keys = {"k1","k2","k3"}
 Vals = {1, 2}
 STYLES = {"A"}
 MAXCONV = 3
 TWO = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK Unique
PROPERTIES Poisoned Converts Failed
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
