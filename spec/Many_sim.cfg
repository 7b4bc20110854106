SPECIFICATION SimSpec
CONSTANTS
 Items = {1, 2, 3}
 Owners = {"o1", "o2"}
 Fields = {"f", "g"}
 Handles = {"h1", "h2", "h3"}
 OwnerOf <- MCOwnerOf
 Active <- MCActiveAll
 Rel0 <- MCRel1
 Saved0 <- MCSaved1
 SETS = TRUE
 MISSING = TRUE
 EMIT = TRUE
VIEW View
INVARIANTS TypeOK NoDangling
PROPERTIES OnlyOwn OnlyBySaving LoadsRelated
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
