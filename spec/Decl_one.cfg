SPECIFICATION Spec
CONSTANTS Models = {1}
 Aliases = {"c1"}
 PkTypes = {"int","bigint","text","blob","c1"}
 Types = {"bool","int","bigint","real","text","blob","json","date","timestamp","c1"}
 AliasTypes = {"bool","int","bigint","real","text","blob","json","date","timestamp","named"}
 Attrs <- AllAttrs
 MaxFields = 1
 Once = TRUE
 EMIT = TRUE
INVARIANTS TypeOK Keys Refs Whole
PROPERTIES Idempotent
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
