SPECIFICATION Spec
CONSTANTS
 Max = 4
 MaxBatch = 3
 Sorted = FALSE
 Whole = TRUE
INVARIANT DoneIsRight
CHECK_DEADLOCK FALSE
