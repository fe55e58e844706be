SPECIFICATION Spec
CONSTANTS
 Max = 5
 MaxBatch = 4
 Sorted = TRUE
 Whole = TRUE
INVARIANT DoneIsRight
INVARIANT Beginning
INVARIANT FailsForAReason
INVARIANT AllAsked
PROPERTY Ends
CHECK_DEADLOCK FALSE
