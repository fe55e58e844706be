SPECIFICATION Spec
CONSTANT Seeds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
INVARIANT RoundTrip
INVARIANT Noticed
INVARIANT SwapRule
INVARIANT ChecksumRule
INVARIANT Shape
CHECK_DEADLOCK FALSE
