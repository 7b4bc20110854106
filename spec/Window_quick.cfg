SPECIFICATION Spec
CONSTANTS
 AVals = {0, 1, 2}
 BVals = {1, 2}
 SVals = {0, 1, 2, 3, 4}
 Filters <- MCFilters
 SortCols = {"b", "id"}
 MaxTerms = 2
 Limits <- MCLimits
 Offsets <- MCOffsets
 EMIT = TRUE
VIEW View
PROPERTIES Ordered Size
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
