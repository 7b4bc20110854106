SPECIFICATION Spec
CONSTANTS
 Items = {1, 2}
 Owners = {"o1", "o2"}
 Fields = {"f", "g"}
 Handles = {"h3"}
 OwnerOf <- MCOwnerOf3
 Active <- MCActive3
 Rel0 <- MCRel1
 Saved0 <- MCSaved1
 SETS = TRUE
 MISSING = FALSE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK NoDangling
PROPERTIES OnlyOwn OnlyBySaving LoadsRelated
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
