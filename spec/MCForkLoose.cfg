SPECIFICATION Spec
CONSTANT Ids = {1, 2}
CONSTANT Max = 3
CONSTANT Amounts = {1}
CONSTANT Discipline = FALSE
INVARIANT AsOnItsOwn
INVARIANT SameVerdict
CHECK_DEADLOCK FALSE
