SPECIFICATION Spec
CONSTANTS XA <- FewX
 RA <- AllR
 XB <- FewX
 TabA = {TRUE, FALSE}
 TabB = {TRUE, FALSE}
 M = {TRUE, FALSE}
 KeyTypes = {"k1"}
 Kinds = {"distinct", "same", "nulls"}
 MaxLen = 2
 Conv = FALSE
 EMIT = TRUE
INVARIANTS TypeOK Consistent
PROPERTIES Keeps
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
