SPECIFICATION Spec
CONSTANTS XA <- NoX
 RA <- SomeR
 XB <- NoX
 TabA = {TRUE, FALSE}
 TabB = {TRUE}
 M = {TRUE, FALSE}
 KeyTypes = {"k1", "k2"}
 Kinds = {"distinct", "same", "nulls"}
 MaxLen = 2
 Conv = TRUE
 EMIT = TRUE
INVARIANTS TypeOK Consistent
PROPERTIES Keeps
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
