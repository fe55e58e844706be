SPECIFICATION Spec
CONSTANTS
 MaxN = 9
 Hashes = {"a", "b"}
 Prev = "p"
INVARIANT ClosedForm
INVARIANT ReadsExactly
INVARIANT RepeatsPredecessor
CHECK_DEADLOCK FALSE
