SPECIFICATION Spec
CONSTANTS
 Digits = {0, 7, 15}
 MaxLen = 5
INVARIANT PackLossless
INVARIANT JoinSplit
INVARIANT HexOne
INVARIANT CommonIsCommon
INVARIANT CommonLongest
INVARIANT CommonSym
INVARIANT PrefixExact
PROPERTY Monotone
CHECK_DEADLOCK FALSE
