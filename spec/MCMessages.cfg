SPECIFICATION Spec
CONSTANTS
 MaxLen = 8
 Alphabet = {0, 1}
INVARIANT RoundTrip
INVARIANT Distinct
PROPERTY Exact
CHECK_DEADLOCK FALSE
