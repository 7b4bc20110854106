SPECIFICATION SimSpec
CONSTANTS Names = {1,2,3,4}
 Tables = {1,2,3}
 Vars = {1,2,3}
 Types = {1,2}
 Bk = {1,2,3}
 EMIT = TRUE
INVARIANTS TypeOK ChainOK Steps
PROPERTIES Kept Refused Local
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
