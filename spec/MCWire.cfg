SPECIFICATION Spec
CONSTANTS
 Damage = {0, 255}
 Kinds = {1, 2, 3, 5, 6, 7, 9, 11, 12}
INVARIANT Whole
INVARIANT NoPrefix
INVARIANT Damaged
INVARIANT Prefixed
CHECK_DEADLOCK FALSE
