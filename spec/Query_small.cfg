SPECIFICATION Spec
CONSTANTS
 AVals = {0, 1, 2}
 BVals = {1, 2}
 SVals = {0, 1, 2, 3, 4}
 Strs <- MCStrs
 Atoms <- AtomsSmall
 MaxLen = 5
 MaxDepth = 3
 MaxAll = 3
 DELETE = FALSE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK Partition
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
