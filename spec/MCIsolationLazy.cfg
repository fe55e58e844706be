SPECIFICATION Spec
CONSTANTS
 Procs = {"p", "q"}
 Ops = 1
 Scratch = "own"
 Lazy = TRUE
 Vals = {1, 3}
INVARIANT NoRace
PROPERTY CommonKept
CHECK_DEADLOCK FALSE
