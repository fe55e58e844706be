SPECIFICATION Spec
CONSTANTS
 Max = 7
 MaxHeight = 6
INVARIANT LockedStays
INVARIANT LockShrinks
INVARIANT NothingEarly
INVARIANT RetainedStays
PROPERTY VestingOnlyOwner
PROPERTY TimeLock
PROPERTY TermsStay
CHECK_DEADLOCK FALSE
