SPECIFICATION Spec
CONSTANTS
 MaxT = 4
 Us = {"u1", "u2", "u3"}
 Slots = {"s1", "s2"}
 UNIQ = TRUE
 EMIT = TRUE
 IMPORT = FALSE
VIEW View
INVARIANTS TypeOK NoRowWithoutKey UniqueColumn
PROPERTIES KeysStayAssigned OneRowPerInsert FreshKey FailureChangesNothing OnlyOwnRow
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
