SPECIFICATION Spec
CONSTANT Window = 500
INVARIANT Fits
INVARIANT Loss
INVARIANT Minimal
INVARIANT MonotoneFine
INVARIANT DifficultyLaw
PROPERTY Monotone
CHECK_DEADLOCK FALSE
