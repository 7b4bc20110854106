SPECIFICATION Spec
CONSTANTS XA <- AllX
 RA <- NoR
 XB <- NoX
 TabA = {TRUE}
 TabB = {FALSE}
 M = {FALSE}
 KeyTypes = {"k1"}
 Kinds = {"distinct", "same", "nulls"}
 MaxLen = 2
 Conv = FALSE
 EMIT = TRUE
INVARIANTS TypeOK Consistent
PROPERTIES Keeps
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
