SPECIFICATION Spec
CONSTANTS
 Procs = {"p", "q"}
 Ops = 1
 Scratch = "shared"
 Lazy = FALSE
 Vals = {1, 3}
INVARIANT Undisturbed
PROPERTY CommonKept
CHECK_DEADLOCK FALSE
