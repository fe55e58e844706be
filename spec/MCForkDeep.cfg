SPECIFICATION Spec
CONSTANT Ids = {1, 2, 3}
CONSTANT Max = 2
CONSTANT Amounts = {1}
CONSTANT Discipline = TRUE
INVARIANT AsOnItsOwn
INVARIANT SameVerdict
PROPERTY OthersKept
PROPERTY FlushMoves
CHECK_DEADLOCK FALSE
