SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT Alphabet = {0, 1, 2, 128, 255}
INVARIANT Canonical
INVARIANT RoundTrip
INVARIANT SizeLaw
INVARIANT FullLaw
INVARIANT Completable
INVARIANT CauseLaw
PROPERTY Stable
PROPERTY Final
CHECK_DEADLOCK FALSE
