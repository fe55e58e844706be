SPECIFICATION Spec
CONSTANT Windows <- QuickWindows
INVARIANT Starts0
INVARIANT Agrees
INVARIANT Capped
INVARIANT TailPaysAll
PROPERTY Grows
PROPERTY RewardsFall
CHECK_DEADLOCK FALSE
