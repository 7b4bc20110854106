SPECIFICATION SimSpec
CONSTANTS XA <- AllX
 RA <- AllR
 XB <- SomeX
 TabA = {TRUE, FALSE}
 TabB = {TRUE, FALSE}
 M = {TRUE, FALSE}
 KeyTypes = {"k1"}
 Kinds = {"distinct", "same", "nulls"}
 MaxLen = 5
 Conv = FALSE
 EMIT = TRUE
INVARIANTS TypeOK Consistent
ACTION_CONSTRAINT Emitted
VIEW View
CHECK_DEADLOCK FALSE
