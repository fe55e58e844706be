SPECIFICATION Spec
CONSTANTS
 Addrs = {1, 2}
 Balances = {"0", "1", "ffffffffffffffff"}
INVARIANT LooksUp
INVARIANT NoEmptyRecord
INVARIANT Canonical
INVARIANT Equal
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
