SPECIFICATION Spec
CONSTANTS Models = {1,2}
 Aliases = {"c1"}
 PkTypes = {"int","c1"}
 Types = {"c1"}
 AliasTypes = {"text","bigint"}
 Attrs <- NoAttrs
 MaxFields = 1
 Once = FALSE
 EMIT = TRUE
INVARIANTS TypeOK Keys Refs Whole
PROPERTIES Idempotent
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
