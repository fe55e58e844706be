SPECIFICATION Spec
CONSTANT Seeds = {1, 2, 3, 4, 5}
INVARIANT RoundTrip
INVARIANT Noticed
INVARIANT SwapRule
INVARIANT ChecksumRule
INVARIANT Shape
CHECK_DEADLOCK FALSE
