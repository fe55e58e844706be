SPECIFICATION Spec
CONSTANTS
 Addrs = {1, 2, 3}
 Balances = {"0", "1"}
INVARIANT LooksUp
INVARIANT NoEmptyRecord
INVARIANT Canonical
INVARIANT Equal
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
