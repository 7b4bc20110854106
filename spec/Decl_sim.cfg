SPECIFICATION SimSpec
CONSTANTS Models = {1,2,3,4}
 Aliases = {"c1","c2","c3"}
 PkTypes = {"int","bigint","text","blob","c1","c2","c3"}
 Types = {"bool","int","bigint","real","text","blob","json","date","timestamp","c1","c2","c3"}
 AliasTypes = {"bool","int","bigint","real","text","blob","json","date","timestamp","named","c1","c2","c3"}
 Attrs <- AllAttrs
 MaxFields = 5
 Once = FALSE
 EMIT = TRUE
INVARIANTS TypeOK Keys Refs Whole
PROPERTIES Idempotent
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
