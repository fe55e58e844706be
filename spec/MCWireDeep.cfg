SPECIFICATION Spec
CONSTANTS
 Damage = {0, 1, 2, 3, 128, 255}
 Kinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
INVARIANT Whole
INVARIANT NoPrefix
INVARIANT Damaged
INVARIANT Prefixed
CHECK_DEADLOCK FALSE
