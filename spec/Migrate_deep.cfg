SPECIFICATION Spec
CONSTANTS Max = 4
 Keys = {"k1","k2"}
 Kinds = {"ok","badup","baddown","nosql"}
 CRASH = FALSE
 EMIT = TRUE
INVARIANTS TypeOK Consistent NoTables
PROPERTIES Prefix Idempotent FailsAt Undone KeepsRows Resumes
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
