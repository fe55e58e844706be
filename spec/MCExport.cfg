SPECIFICATION Spec
CONSTANTS
 Max = 4
 MaxBatch = 3
 Sorted = TRUE
 Whole = TRUE
INVARIANT DoneIsRight
INVARIANT Beginning
INVARIANT FailsForAReason
INVARIANT AllAsked
PROPERTY Ends
CHECK_DEADLOCK FALSE
