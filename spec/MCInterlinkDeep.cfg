SPECIFICATION Spec
CONSTANTS
 MaxN = 12
 Hashes = {"a", "b"}
 Prev = "p"
INVARIANT ClosedForm
INVARIANT ReadsExactly
INVARIANT RepeatsPredecessor
CHECK_DEADLOCK FALSE
