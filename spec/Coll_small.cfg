SPECIFICATION Spec
CONSTANTS Names = {1,2}
 Tables = {1}
 Vars = {1,2}
 Types = {1}
 Bk = {1}
 EMIT = TRUE
INVARIANTS TypeOK ChainOK Steps
PROPERTIES Kept Refused Local
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
