SPECIFICATION Spec
CONSTANTS
 Items = {1, 2}
 Owners = {"o1", "o2"}
 Fields = {"f", "g"}
 Handles = {"h1"}
 OwnerOf <- MCOwnerOf1
 Active <- MCActive1
 Rel0 <- MCRel0
 Saved0 <- MCSaved2
 SETS = TRUE
 MISSING = FALSE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK NoDangling
PROPERTIES OnlyOwn OnlyBySaving LoadsRelated
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
