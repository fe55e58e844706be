SPECIFICATION Spec
CONSTANTS
 MaxEntries = 3
 Limit = 4
INVARIANT AcceptsExactly
INVARIANT Counts
PROPERTY Final
CHECK_DEADLOCK FALSE
