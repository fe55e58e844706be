SPECIFICATION Spec
CONSTANTS
 Max = 4
 MaxHeight = 4
INVARIANT LockedStays
INVARIANT LockShrinks
INVARIANT NothingEarly
INVARIANT RetainedStays
PROPERTY VestingOnlyOwner
PROPERTY TimeLock
PROPERTY TermsStay
CHECK_DEADLOCK FALSE
