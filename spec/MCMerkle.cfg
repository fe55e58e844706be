SPECIFICATION Spec
CONSTANTS
 Keys = {"k", "m"}
 Depth = 3
INVARIANT Member
INVARIANT BitsMatter
CHECK_DEADLOCK FALSE
