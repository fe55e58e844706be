SPECIFICATION Spec
CONSTANTS
 Procs = {"p", "q"}
 Ops = 2
 Scratch = "own"
 Lazy = FALSE
 Vals = {1, 3}
INVARIANT Undisturbed
INVARIANT NoRace
PROPERTY CommonKept
CHECK_DEADLOCK FALSE
