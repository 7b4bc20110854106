SPECIFICATION Spec
CONSTANTS Max = 4
 Keys = {"k1"}
 Kinds = {"ok","badup","baddown","nosql"}
 CRASH = TRUE
 EMIT = TRUE
INVARIANTS TypeOK Consistent NoTables
PROPERTIES Prefix Idempotent FailsAt Undone KeepsRows Resumes
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
