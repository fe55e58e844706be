SPECIFICATION Spec
CONSTANT Ids = {1, 2}
CONSTANT Max = 3
CONSTANT Amounts = {1}
CONSTANT Discipline = TRUE
INVARIANT AsOnItsOwn
INVARIANT SameVerdict
PROPERTY OthersKept
PROPERTY FlushMoves
CHECK_DEADLOCK FALSE
