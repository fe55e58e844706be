SPECIFICATION Spec
CONSTANTS
 Max = 4
 MaxBatch = 3
 Sorted = TRUE
 Whole = FALSE
INVARIANT DoneIsRight
CHECK_DEADLOCK FALSE
