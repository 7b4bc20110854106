SPECIFICATION Spec
CONSTANTS Max = 3
 Keys = {"k1"}
 Kinds = {"ok","badup","baddown","nosql"}
 CRASH = FALSE
 EMIT = TRUE
INVARIANTS TypeOK Consistent NoTables
PROPERTIES Prefix Idempotent FailsAt Undone KeepsRows Resumes
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
