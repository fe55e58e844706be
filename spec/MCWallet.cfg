SPECIFICATION Spec
CONSTANTS
 MaxAlterations = 2
 Verify <- PerfectVerify
 Kinds = {"ext", "basic", "peer"}
INVARIANT TxBound
INVARIANT SignsForItself
INVARIANT Equivalent
INVARIANT PeerBound
CHECK_DEADLOCK FALSE
